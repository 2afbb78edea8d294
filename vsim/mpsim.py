"""Simulated ``multiprocessing`` / ``multiprocess``.

Stand-ins for pools, processes, managers and shared memory. What is real: the pickling (the
package's own ForkingPickler, one pickle per chunk, as the real pool does), the chunking rule, the
functions that run, and the shared bytes. What is simulated: where and when a chunk runs, what a
worker can see of its parent (a copy made at the fork), and whether an allocation, a task or a
process fails.
"""

import copy
import errno
import traceback
import types
import weakref

from . import core
from .core import World, Proc, SimCrash


def _world():
    w = core.current()
    if w is None:
        raise core.HarnessError("mssm used a process pool/process/shared memory outside a world")
    return w


def make_exc(kind):
    if kind == "mem":
        return MemoryError("simulated: cannot allocate memory")
    if kind == "emfile":
        return OSError(errno.EMFILE, "simulated: too many open files")
    if kind == "eio":
        return OSError(errno.EIO, "simulated: input/output error")
    if kind == "enospc":
        return OSError(errno.ENOSPC, "simulated: no space left on device")
    if kind == "eacces":
        return PermissionError(errno.EACCES, "simulated: permission denied")
    if kind == "enoent":
        return FileNotFoundError(errno.ENOENT, "simulated: no such file")
    if kind == "eagain":
        return BlockingIOError(errno.EAGAIN, "simulated: resource temporarily unavailable")
    if kind == "value":
        return ValueError("simulated: value error in worker")
    raise core.HarnessError(f"unknown fault kind {kind}")


def _no_children(w):
    """Pool workers are daemons, which cannot start processes (pools, managers, chains)."""
    r = w.running
    if r is not None and getattr(r, "daemon", False):
        raise AssertionError("daemonic processes are not allowed to have children")


class SimCurrent:
    """multiprocessing.current_process() of a simulated process."""

    def __init__(self, proc):
        self.name = proc.name if proc.parent is not None else "MainProcess"
        self.daemon = getattr(proc, "daemon", False)
        self.pid = self.ident = proc.pid
        self.exitcode = None
        self._config = {"daemon": self.daemon}

    def is_alive(self):
        return True


def _patience(w, done):
    """Wait with a time limit: a stalled peer may or may not make it (the schedule decides)."""
    for _ in range(w.dec.choose(5) * 4):
        if done():
            return
        w.yield_()


class RemoteTraceback(Exception):
    pass


def build(pkg):
    """Stand-ins that pickle with the pickler of package ``pkg``."""
    import importlib

    reduction = importlib.import_module(pkg.__name__ + ".reduction")
    poolmod = importlib.import_module(pkg.__name__ + ".pool")
    dumps = lambda o: bytes(reduction.ForkingPickler.dumps(o))  # noqa: E731
    loads = reduction.ForkingPickler.loads
    MaybeEncodingError = poolmod.MaybeEncodingError
    TimeoutError_ = pkg.TimeoutError

    class SimAsyncResult:
        def __init__(self, pool, n, chunksize, single=False, callback=None, error_callback=None):
            self.pool = pool
            self.values = [None] * n
            self.left = 0
            self.success = True
            self.error = None
            self.single = single
            self.callback = callback
            self.error_callback = error_callback
            self.order = []  # completion order of chunks (imap_unordered)

        def ready(self):
            return self.left == 0

        def successful(self):
            if not self.ready():
                raise ValueError(f"{self!r} not ready")
            return self.success

        def wait(self, timeout=None):
            if timeout is not None:
                _patience(_world(), self.ready)
                return
            _world().block(self.ready, "pool result")

        def get(self, timeout=None):
            self.wait(timeout)
            if not self.ready():
                raise TimeoutError_
            if not self.success:
                raise self.error
            return self.values[0] if self.single else self.values

        def _set(self, start, ok, payload):
            self.left -= 1
            if ok:
                vals = loads(payload)
                self.values[start : start + len(vals)] = vals
                self.order.append((start, len(vals)))
            elif self.success:
                self.success = False
                self.error = loads(payload) if isinstance(payload, bytes) else payload
            if self.left == 0:
                if self.success and self.callback is not None:
                    self.callback(self.values[0] if self.single else self.values)
                if not self.success and self.error_callback is not None:
                    self.error_callback(self.error)

    class SimPool:
        def __init__(
            self,
            processes=None,
            initializer=None,
            initargs=(),
            maxtasksperchild=None,
            context=None,
        ):
            w = _world()
            self.w = w
            if processes is None:
                processes = w.n_cpu
            if processes < 1:
                raise ValueError("Number of processes must be at least 1")
            if initializer is not None and not callable(initializer):
                raise TypeError("initializer must be a callable")
            _no_children(w)
            f = w.op("pool_create", str(processes))
            if f is not None:
                raise make_exc(f.kind)
            self._n = processes
            self.queue = []
            self.closed = False
            self.terminated = False
            self.owner = w.running
            self._init = (initializer, initargs)
            self._pid = id(w)
            w.live_pools += 1
            w.pools = getattr(w, "pools", 0) + 1
            self.workers = []
            for k in range(processes):
                f = w.op("fork", f"worker{k}", switch=False)
                if f is not None:
                    w.live_pools -= 1
                    self.terminated = True
                    raise make_exc(f.kind)
                p = w.spawn(
                    f"{w.running.name if w.running else '-'}.p{w.pools}w{k}",
                    self._worker_main,
                    parent=w.running,
                )
                p.daemon = True
                self.workers.append(p)
                p.wait_for = lambda: bool(self.queue) or self.closed or self.terminated

        # -- worker -------------------------------------------------------------------

        def _worker_main(self):
            w = self.w
            init, initargs = self._init
            if init is not None:
                loads(dumps((init, initargs)))[0](*initargs)
            while True:
                w.block(
                    lambda: bool(self.queue) or self.closed or self.terminated,
                    "idle",
                )
                if self.terminated:
                    return
                if not self.queue:
                    if self.closed:
                        return
                    continue
                res, start, blob, star = self.queue.pop(0)
                try:
                    func, batch, kwargs = loads(blob)
                    out = []
                    for args in batch:
                        f = w.op("task", getattr(func, "__name__", "?"))
                        if f is not None and f.kind != "late":
                            raise make_exc(f.kind)
                        r = func(*args, **kwargs) if star else func(args, **kwargs)
                        if f is not None:
                            raise make_exc(f.arg or "mem")
                        out.append(r)
                    try:
                        payload = (True, dumps(out))
                    except Exception as e:
                        payload = (False, dumps(MaybeEncodingError(e, "<value>")))
                except Exception as e:
                    try:
                        b = dumps(e)
                        loads(b)
                        payload = (False, b)
                    except Exception as e2:
                        payload = (False, dumps(MaybeEncodingError(e2, repr(e))))
                f = w.op("result", "", switch=True)
                if f is not None:
                    # The real worker replaces a result it cannot send by this error
                    payload = (False, dumps(MaybeEncodingError(make_exc(f.kind), "<value>")))
                res._set(start, *payload)

        # -- parent -------------------------------------------------------------------

        def _check(self):
            if self.closed or self.terminated:
                raise ValueError("Pool not running")

        def _submit(self, func, items, star, chunksize=None, callback=None, error_callback=None,
                    single=False, kwargs=None):
            self._check()
            w = self.w
            items = list(items)
            if chunksize is None:
                chunksize, extra = divmod(len(items), self._n * 4)
                if extra:
                    chunksize += 1
            if len(items) == 0:
                chunksize = 0
            f = w.op("submit", f"{getattr(func, '__name__', '?')}x{len(items)}")
            if f is not None:
                raise make_exc(f.kind)
            res = SimAsyncResult(self, len(items), chunksize, single, callback, error_callback)
            chunks = []
            if chunksize:
                for i in range(0, len(items), chunksize):
                    chunks.append((i, items[i : i + chunksize]))
            res.left = len(chunks)
            # The real pool's handler thread pickles a chunk at a time; a chunk that cannot be
            # pickled fails the whole call with that exception.
            for start, batch in chunks:
                try:
                    blob = dumps((func, batch, kwargs or {}))
                except Exception as e:
                    res._set(start, False, e)
                    continue
                self.queue.append((res, start, blob, star))
            return res

        def starmap(self, func, iterable, chunksize=None):
            return self._submit(func, iterable, True, chunksize).get()

        def map(self, func, iterable, chunksize=None):
            return self._submit(func, iterable, False, chunksize).get()

        def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
            return self._submit(func, iterable, True, chunksize, callback, error_callback)

        def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
            return self._submit(func, iterable, False, chunksize, callback, error_callback)

        def apply(self, func, args=(), kwds={}):
            return self.apply_async(func, args, kwds).get()

        def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
            return self._submit(
                func, [tuple(args)], True, 1, callback, error_callback, True, dict(kwds)
            )

        def imap(self, func, iterable, chunksize=1):
            items = list(iterable)
            parts = [self._submit(func, [it], False, 1, single=True) for it in items]

            def gen():
                for r in parts:
                    yield r.get()

            return gen()

        def imap_unordered(self, func, iterable, chunksize=1):
            items = list(iterable)
            parts = [self._submit(func, [it], False, 1, single=True) for it in items]
            w = self.w

            def gen():
                left = list(parts)
                while left:
                    w.block(lambda: any(r.ready() for r in left), "imap_unordered")
                    r = [r for r in left if r.ready()][0]
                    left.remove(r)
                    yield r.get()

            return gen()

        def close(self):
            self.closed = True

        def terminate(self):
            if self.terminated:
                return
            self.terminated = True
            self.closed = True
            self.queue.clear()
            self.w.live_pools -= 1
            for p in self.workers:
                if not p.done:
                    if not p.started:
                        p.done = True
                    else:
                        p.kill = True

        def join(self):
            if not (self.closed or self.terminated):
                raise ValueError("Pool is still running")
            if not self.terminated:
                self.w.block(lambda: all(p.done for p in self.workers), "join")
                self.terminated = True
                self.w.live_pools -= 1

        def __enter__(self):
            self._check()
            return self

        def __exit__(self, *a):
            self.terminate()

        def __reduce__(self):
            raise NotImplementedError(
                "pool objects cannot be passed between processes or pickled"
            )

    class SimProcess:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
            w = _world()
            self.w = w
            self._target = target
            self._args = tuple(args)
            self._kwargs = dict(kwargs)
            self.name = name or "Process"
            self.daemon = daemon
            self.exitcode = None
            self.proc = None
            self._seq = 0

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            w = self.w
            if self.proc is not None:
                raise AssertionError("cannot start a process twice")
            _no_children(w)
            f = w.op("fork", self.name, switch=False)
            if f is not None:
                raise make_exc(f.kind)
            w.nproc = getattr(w, "nproc", 0) + 1
            # Fork: the child works on its own copy of everything it was given.
            child = copy.copy(self)
            child._target, child._args, child._kwargs = _fork_copy(
                (self._target, self._args, self._kwargs), dumps, loads
            )

            def main():
                # Bootstrap as in the real one: an uncaught exception is exit code 1
                try:
                    f = w.op("chain", self.name)
                    if f is not None:
                        if f.kind == "kill":
                            self.exitcode = -9
                            return
                        raise make_exc(f.kind)
                    child.run()
                    f = w.op("chain_end", self.name)
                    if f is not None:
                        self.exitcode = -9
                        return
                    self.exitcode = 0
                except SimCrash:
                    self.exitcode = -9
                    raise
                except SystemExit as e:
                    self.exitcode = e.code if isinstance(e.code, int) else 1
                except BaseException as e:  # noqa: B036
                    self.exitcode = 1
                    w.note("proc_exc", type(e).__name__)

            self.proc = w.spawn(
                f"{w.running.name if w.running else '-'}.c{w.nproc}", main, parent=w.running
            )
            self.proc.crash_alone = True
            self.proc.daemon = bool(self.daemon)
            w.yield_()

        def join(self, timeout=None):
            if self.proc is None:
                raise AssertionError("can only join a started process")
            if timeout is not None:
                _patience(self.w, lambda: self.proc.done)
                if not self.proc.done:
                    return
            self.w.block(lambda: self.proc.done, "process join")
            if self.exitcode is None:
                self.exitcode = -9

        def is_alive(self):
            return self.proc is not None and not self.proc.done

        def terminate(self):
            if self.proc is not None and not self.proc.done:
                self.proc.kill = True

        kill = terminate

        def close(self):
            pass

        @property
        def pid(self):
            return None if self.proc is None else self.proc.pid

        def __deepcopy__(self, memo):
            return self

    class _Proxy:
        """A value living in the (simulated) manager process: pickled in, pickled out."""

        def __deepcopy__(self, memo):
            return self

        def __reduce__(self):
            return (_lookup_proxy, (self._key,))

    class SimDictProxy(_Proxy):
        def __init__(self, w, key, init=None):
            self._w = w
            self._key = key
            self._d = {}
            for k, v in (init or {}).items():
                self._d[k] = dumps(v)
            _PROXIES[key] = self

        def _op(self, what):
            f = self._w.op("manager", what)
            if f is not None:
                raise make_exc(f.kind)

        def __setitem__(self, k, v):
            b = dumps(v)
            self._op("set")
            self._d[k] = b

        def __getitem__(self, k):
            self._op("get")
            return loads(self._d[k])

        def __delitem__(self, k):
            self._op("del")
            del self._d[k]

        def __contains__(self, k):
            self._op("in")
            return k in self._d

        def __len__(self):
            return len(self._d)

        def __iter__(self):
            return iter(list(self._d))

        def get(self, k, default=None):
            self._op("get")
            return loads(self._d[k]) if k in self._d else default

        def keys(self):
            return list(self._d)

        def values(self):
            return [loads(v) for v in self._d.values()]

        def items(self):
            return [(k, loads(v)) for k, v in self._d.items()]

        def update(self, *a, **k):
            for kk, v in dict(*a, **k).items():
                self[kk] = v

        def pop(self, k, *d):
            self._op("pop")
            if k in self._d:
                return loads(self._d.pop(k))
            if d:
                return d[0]
            raise KeyError(k)

        def copy(self):
            return dict(self.items())

        def clear(self):
            self._d.clear()

    class SimListProxy(_Proxy):
        def __init__(self, w, key, init=()):
            self._w = w
            self._key = key
            self._l = [dumps(v) for v in init]
            _PROXIES[key] = self

        def append(self, v):
            b = dumps(v)
            self._w.op("manager", "append")
            self._l.append(b)

        def __getitem__(self, i):
            self._w.op("manager", "get")
            r = self._l[i]
            return [loads(x) for x in r] if isinstance(i, slice) else loads(r)

        def __setitem__(self, i, v):
            b = dumps(v)
            self._w.op("manager", "set")
            self._l[i] = b

        def __len__(self):
            return len(self._l)

        def __iter__(self):
            return iter([loads(x) for x in self._l])

    class SimManager:
        def __init__(self, *a, **k):
            self.w = _world()
            _no_children(self.w)
            f = self.w.op("manager_create")
            if f is not None:
                raise make_exc(f.kind)

        def start(self, *a, **k):
            pass

        def dict(self, *a, **k):
            w = self.w
            w.nprox = getattr(w, "nprox", 0) + 1
            return SimDictProxy(w, (id(w), w.nprox), dict(*a, **k))

        def list(self, seq=()):
            w = self.w
            w.nprox = getattr(w, "nprox", 0) + 1
            return SimListProxy(w, (id(w), w.nprox), seq)

        def shutdown(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()

        def __deepcopy__(self, memo):
            return self

    return dict(
        Pool=SimPool,
        Process=SimProcess,
        Manager=SimManager,
    )


_PROXIES = {}


def _lookup_proxy(key):
    return _PROXIES[key]


def _fork_copy(obj, dumps, loads):
    """What a forked child sees: its own copy of everything reachable from what it was given."""
    try:
        return loads(dumps(obj))
    except Exception:
        pass
    return copy.deepcopy(obj)


# --------------------------------------------------------------------------------------------
# Shared memory
# --------------------------------------------------------------------------------------------


class _Segment:
    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.data = bytearray(size)


class SimSharedMemory:
    def __init__(self, name=None, create=False, size=0, *, track=True):
        w = _world()
        if not size >= 0:
            raise ValueError("'size' must be a positive integer")
        if create:
            if size == 0:
                raise ValueError("'size' must be a positive number different from zero")
            f = w.op("shm_create", str(size), switch=False)
            if f is not None:
                raise make_exc(f.kind)
            if name is None:
                w.shm_seq += 1
                name = f"psm_sim{w.shm_seq}"
            if name in w.shm:
                raise FileExistsError(errno.EEXIST, "File exists", name)
            w.shm[name] = _Segment(name, size)
            w.shm_created += 1
        else:
            f = w.op("shm_attach", "")
            if f is not None:
                raise make_exc(f.kind)
            if name not in w.shm:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", name)
        self._w = w
        self._seg = w.shm[name]
        self._name = name
        self._buf = memoryview(self._seg.data)

    @property
    def buf(self):
        return self._buf

    @property
    def name(self):
        return self._name

    @property
    def size(self):
        return self._seg.size

    def close(self):
        if self._buf is not None:
            self._buf.release()
            self._buf = None

    def unlink(self):
        w = self._w
        w.op("shm_unlink", self._name, switch=False)
        if self._name not in w.shm:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", self._name)
        del w.shm[self._name]

    def __reduce__(self):
        return (SimSharedMemory, (self._name, False, self._seg.size))

    def __deepcopy__(self, memo):
        return self


def _release(w, names):
    for n in names:
        w.shm.pop(n, None)
    names.clear()


class SimSharedMemoryManager:
    def __init__(self, *a, **k):
        self.w = _world()
        self.names = []
        self.started = False
        self._fin = None

    def start(self, *a, **k):
        _no_children(self.w)
        f = self.w.op("manager_create", "shm")
        if f is not None:
            raise make_exc(f.kind)
        self.started = True
        # As the real one: gone when the manager object is gone
        self._fin = weakref.finalize(self, _release, self.w, self.names)

    def SharedMemory(self, size):
        if not self.started:
            raise AssertionError("server not yet started")
        s = SimSharedMemory(None, create=True, size=size)
        self.names.append(s.name)
        return s

    def ShareableList(self, seq):
        raise core.HarnessError("ShareableList is not simulated")

    def shutdown(self):
        if self._fin is not None and self._fin.alive:
            self.w.op("shm_shutdown", str(len(self.names)), switch=False)
            self._fin()

    def __enter__(self):
        if not self.started:
            self.start()
        return self

    def __exit__(self, *a):
        self.shutdown()

    def __deepcopy__(self, memo):
        return self


def _current(real):
    def current_process():
        w = core.current()
        return real() if w is None or w.running is None else SimCurrent(w.running)

    return current_process


def sim_cpu_count():
    w = core.current()
    return w.n_cpu if w is not None else 8


_INSTALLED = False


def install():
    """Replace the packages' entry points. Before mssm is imported."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    import importlib

    names = ["multiprocessing"]
    try:
        import multiprocess  # noqa: F401

        names.append("multiprocess")
    except ImportError:
        pass
    for nm in names:
        pkg = importlib.import_module(nm)
        for sub in ("pool", "managers", "shared_memory", "context", "reduction", "process"):
            importlib.import_module(f"{nm}.{sub}")
        sim = build(pkg)
        pkg.pool.Pool = sim["Pool"]
        pkg.shared_memory.SharedMemory = SimSharedMemory
        pkg.managers.SharedMemoryManager = SimSharedMemoryManager
        pkg.managers.SyncManager = sim["Manager"]
        pkg.Pool = sim["Pool"]
        pkg.Process = sim["Process"]
        pkg.Manager = sim["Manager"]
        pkg.cpu_count = sim_cpu_count
        pkg.current_process = _current(pkg.current_process)
        ctx = pkg.context.BaseContext

        def mk(cls):
            return lambda self, *a, **k: cls(*a, **k)

        ctx.Pool = mk(sim["Pool"])
        ctx.Manager = mk(sim["Manager"])
        ctx.cpu_count = lambda self: sim_cpu_count()
        for cname in ("ForkContext", "SpawnContext", "ForkServerContext", "DefaultContext"):
            c = getattr(pkg.context, cname, None)
            if c is not None:
                c.Process = sim["Process"]
    import os

    os.cpu_count = sim_cpu_count
