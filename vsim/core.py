"""Simulator core.

One :class:`World` is one simulated machine: simulated processes (clients and workers), one
scheduler, one decision log, one fault plan, one trace. Everything that mssm would hand to the
operating system (process pools, processes, managers, shared memory, files) ends up in a seam
operation (:meth:`World.op`), which is where the scheduler may switch to another simulated process
and where the fault plan may strike.

Simulated processes are Python threads that pass a baton: exactly one runs at any time, and the
scheduler (seeded) decides which one runs next. A simulated process owns its own copy of the
process-global state (random number generators and the module/class level data of mssm), which is
swapped in and out with the baton, so that a simulated worker cannot see what the parent did after
the fork and the parent cannot see what the worker did to its globals.
"""

import copy
import hashlib
import random
import sys
import threading
import types

threading.stack_size(256 * 1024 * 1024)


class Violation(Exception):
    """The property does not hold on this execution."""


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class SimCrash(BaseException):
    """The simulated process is gone. Derived from BaseException: `except Exception` misses it."""


class SimHang(Violation):
    """No simulated process can make progress."""


class Budget(Violation):
    """Too many steps without finishing."""


CURRENT = None  # the active world

# Simulated seconds one operation costs (reporting only: nothing in mssm reads a clock)
COST = {"task": 0.5, "fork": 0.05, "fread": 0.01, "fwrite": 0.01, "open_r": 0.02, "open_w": 0.02}


def current():
    return CURRENT


# --------------------------------------------------------------------------------------------
# Process-global state
# --------------------------------------------------------------------------------------------

_PLAIN = (int, float, str, bool, bytes, type(None), complex)
_CONTAINER = (list, dict, set, tuple, frozenset)


def _is_data(v):
    import numpy as np

    return isinstance(v, _PLAIN) or isinstance(v, _CONTAINER) or isinstance(v, np.ndarray)


def _data_slots():
    """(owner, name) of all plain data kept at module or class level in mssm."""
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "mssm" or name.startswith("mssm.")):
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            if _is_data(v):
                yield mod, k
            elif isinstance(v, type) and getattr(v, "__module__", None) == name:
                for ck, cv in list(vars(v).items()):
                    if ck.startswith("__"):
                        continue
                    if _is_data(cv):
                        yield v, ck


def _module_sig():
    return tuple(
        len(vars(m))
        for n, m in list(sys.modules.items())
        if m is not None and (n == "mssm" or n.startswith("mssm."))
    )


def _copyval(v):
    if isinstance(v, _PLAIN):
        return v
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


class ProcState:
    """State a forked process would have for itself."""

    def __init__(self, data, npstate, pystate):
        self.data = data
        self.npstate = npstate
        self.pystate = pystate

    @classmethod
    def capture(cls, deep, slots):
        import numpy as np

        data = []
        for owner, k in slots:
            v = owner.__dict__.get(k, _MISSING)
            if v is _MISSING:
                continue
            data.append((owner, k, _copyval(v) if deep else v))
        return cls(data, np.random.get_state(), random.getstate())

    def install(self):
        import numpy as np

        for owner, k, v in self.data:
            cur = owner.__dict__.get(k, _MISSING)
            if cur is not v:
                try:
                    setattr(owner, k, v)
                except (AttributeError, TypeError):
                    pass
        np.random.set_state(self.npstate)
        random.setstate(self.pystate)


_MISSING = object()


# --------------------------------------------------------------------------------------------
# Decisions
# --------------------------------------------------------------------------------------------


class Decisions:
    """Every scheduling choice. Recording (seeded) or replaying (a list, then 0)."""

    def __init__(self, seed=None, replay=None, bias=1.0):
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.log = []
        self.bias = bias

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.log)
        if self.replay is not None:
            c = self.replay[i] if i < len(self.replay) else 0
            c = min(max(int(c), 0), n - 1)
        else:
            c = 0 if self.rng.random() >= self.bias else self.rng.randrange(n)
        self.log.append(c)
        return c


# --------------------------------------------------------------------------------------------
# Faults
# --------------------------------------------------------------------------------------------


class Fault:
    """Strikes the n-th (0-based) operation of class ``cls`` (optionally a path/detail filter)."""

    # arg "stays": from then on every such operation on the same path or object fails too

    __slots__ = ("cls", "n", "kind", "arg", "fired", "seen", "where")

    def __init__(self, cls, n, kind, arg=None):
        self.cls = cls
        self.n = n
        self.kind = kind
        self.arg = arg
        self.fired = 0
        self.seen = 0
        self.where = None

    def as_json(self):
        return [self.cls, self.n, self.kind, self.arg]


# --------------------------------------------------------------------------------------------
# Simulated processes
# --------------------------------------------------------------------------------------------


class Proc:
    """A simulated process: baton-passing thread plus its own process-global state."""

    _ids = 0

    def __init__(self, world, name, target, state=None, parent=None):
        self.world = world
        self.name = name
        self.target = target
        self.state = state
        self.parent = parent
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.started = False
        self.done = False
        self.dead = False  # crashed
        self.kill = False  # will be torn down by the harness
        self.wait_for = None  # predicate
        self.result = None
        self.exc = None
        self.pid = len(world.procs)
        world.procs.append(self)

    def runnable(self):
        if self.done:
            return False
        if self.kill or self.dead:
            return True
        if self.wait_for is not None:
            return bool(self.wait_for())
        return True

    def _main(self):
        self.sem.acquire()
        try:
            if not self.kill:
                self.result = self.target()
        except SimCrash:
            self.dead = True
        except BaseException as e:  # noqa: B036
            self.exc = e
        finally:
            self.done = True
            self.target = None
            self.world._sched_sem.release()


class World:
    """One simulated machine."""

    def __init__(
        self,
        seed=0,
        replay=None,
        faults=(),
        bias=1.0,
        max_steps=400000,
        n_cpu=8,
        root=None,
    ):
        self.seed = seed
        self.dec = Decisions(seed, replay, bias)
        self.faults = [f if isinstance(f, Fault) else Fault(*f) for f in faults]
        self.procs = []
        self.running = None
        self._sched_sem = threading.Semaphore(0)
        self.steps = 0
        self.max_steps = max_steps
        self.time = 0.0
        self.counts = {}
        self.fault_counts = {}
        self.n_cpu = n_cpu
        self.root = root
        self.trace = hashlib.sha256()
        self.trace_len = 0
        self.tail = []
        self.shm = {}
        self.shm_created = 0
        self.shm_seq = 0
        self.live_pools = 0
        self.switches = 0
        self.written = {}  # files written since creation (for power loss)
        self.slots = []
        self._sig = None

    # -- trace ----------------------------------------------------------------------------

    def note(self, what, detail=""):
        who = self.running.name if self.running is not None else "-"
        s = f"{who}|{what}|{detail}\n"
        self.trace.update(s.encode())
        self.trace_len += 1
        self.tail.append(s.strip())
        if len(self.tail) > 400:
            del self.tail[:200]

    # -- seam -----------------------------------------------------------------------------

    def op(self, cls, detail="", switch=True):
        """A seam operation. Returns the fault that strikes it (or None)."""
        me = self.running
        if me is not None:
            if me.kill:
                raise SimCrash("torn down")
            if me.dead:
                raise SimCrash("dead process")
        self.steps += 1
        self.time += COST.get(cls, 1e-3)
        if self.steps > self.max_steps:
            raise Budget(f"more than {self.max_steps} steps")
        self.note(cls, detail)
        n = self.counts.get(cls, 0)
        self.counts[cls] = n + 1
        hit = None
        for f in self.faults:
            if f.fired and not (f.arg == "stays" and f.cls == cls and f.where == detail):
                continue
            if f.cls == cls and (n == f.n or f.fired):
                f.fired += 1
                f.where = detail
                key = f"{f.cls}:{f.kind}"
                self.fault_counts[key] = self.fault_counts.get(key, 0) + 1
                self.note("FAULT", f"{f.cls}:{f.kind}")
                hit = f
                break
        if hit is not None and hit.kind == "crash":
            self.crash_current()
        if hit is not None and hit.kind == "interrupt":
            raise KeyboardInterrupt("simulated interrupt")
        if switch and me is not None:
            self.yield_()
        return hit

    def crash_current(self):
        """Kill the running process together with the children it forked."""
        me = self.running
        if me is None:
            raise SimCrash("crash")
        root = me
        while root.parent is not None and not getattr(root, "independent", False):
            root = root.parent
        if getattr(me, "crash_alone", False):
            root = me
        for p in self.procs:
            q = p
            while q is not None:
                if q is root:
                    p.dead = True
                    break
                q = q.parent
        raise SimCrash("crash")

    # -- scheduling -----------------------------------------------------------------------

    def yield_(self):
        me = self.running
        if me is None:
            return
        others = [p for p in self.procs if p is not me and p.runnable()]
        if not others:
            return
        me.wait_for = None
        self._back_to_scheduler(me)

    def block(self, pred, why=""):
        """The running process cannot go on before pred() holds."""
        me = self.running
        if me is None:
            # Harness code outside of any simulated process: drive the others
            self._drive(lambda: pred())
            return
        if pred():
            return
        self.note("block", why)
        me.wait_for = pred
        self._back_to_scheduler(me)
        me.wait_for = None

    def _back_to_scheduler(self, me):
        me.state_out()
        self._sched_sem.release()
        me.sem.acquire()
        if me.kill or me.dead:
            raise SimCrash("torn down" if me.kill else "dead process")

    def _resume(self, p):
        prev = self.running
        self.running = p
        self.switches += 1
        if not p.started:
            p.started = True
            p.thread = threading.Thread(target=p._main, daemon=True)
            p.thread.start()
        p.state_in()
        p.sem.release()
        self._sched_sem.acquire()
        if p.done:
            p.state_out()
        self.running = prev

    def _drive(self, done):
        while not done():
            cand = [p for p in self.procs if p.runnable()]
            if not cand:
                live = [p.name for p in self.procs if not p.done]
                raise SimHang(f"no simulated process can make progress; waiting: {live}")
            c = self.dec.choose(len(cand))
            self._resume(cand[c])
            if self.steps > self.max_steps * 2:
                raise Budget("scheduler budget")

    def spawn(self, name, target, parent=None):
        """Fork: the new process starts with a copy of the current process-global state."""
        # Re-scan for data globals only if a module gained or lost names since the last scan
        sig = _module_sig()
        if sig != self._sig:
            self.slots = list(_data_slots())
            self._sig = sig
        st = ProcState.capture(True, self.slots)
        p = Proc(self, name, target, st, parent)
        return p

    def run_client(self, fn, name="client"):
        """Run one simulated client process to completion and return its result (or raise)."""
        return self.run_clients([(name, fn)])[0].get()

    def run_clients(self, specs):
        global CURRENT
        if CURRENT is not None and CURRENT is not self:
            raise HarnessError("nested worlds")
        prev = CURRENT
        CURRENT = self
        self.slots = list(_data_slots())
        base = ProcState.capture(False, self.slots)
        fresh = [self.spawn(n, f) for n, f in specs]
        try:
            self._drive(lambda: all(p.done for p in fresh))
        finally:
            self._teardown()
            CURRENT = prev
            self.running = None
            base.install()
        return [Outcome(p) for p in fresh]

    def _teardown(self):
        for _ in range(1000):
            left = [p for p in self.procs if not p.done]
            if not left:
                break
            for p in left:
                p.kill = True
                if not p.started:
                    p.done = True
                    continue
                try:
                    self._resume(p)
                except BaseException:
                    pass
        self.procs = []

    def digest(self):
        return self.trace.hexdigest()


class Outcome:
    def __init__(self, p):
        self.value = p.result
        self.exc = p.exc
        self.crashed = p.dead

    def get(self):
        if self.crashed:
            raise SimCrash("process crashed")
        if self.exc is not None:
            raise self.exc
        return self.value

    @property
    def ok(self):
        return self.exc is None and not self.crashed


def _state_in(self):
    if self.state is not None:
        self.state.install()


def _state_out(self):
    self.state = ProcState.capture(False, self.world.slots)


Proc.state_in = _state_in
Proc.state_out = _state_out
