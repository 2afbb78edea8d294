"""One simulated run: scenario -> worlds -> verdict."""

import os
import pickle
import select
import shutil
import signal
import time
import traceback

from . import core
from .core import World, Violation, HarnessError


FATAL = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL)


def forked(fn, timeout=None):
    """Run fn in a forked child: ("ok", value), ("exc", exception), ("signal", n), ("exit", n) or
    ("timeout", seconds)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                sig = getattr(e, "signature", None)
                out = ("exc", (type(e).__name__, str(e), sig, "".join(traceback.format_exception(e))[-3000:], e))
            try:
                b = pickle.dumps(out)
            except Exception:
                if out[0] == "ok":
                    raise
                b = pickle.dumps((out[0], out[1][:4] + (None,)))
            with os.fdopen(w, "wb") as fh:
                fh.write(b)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    t_end = None if timeout is None else time.time() + timeout
    buf = []
    while True:
        left = None if t_end is None else max(0.0, t_end - time.time())
        if not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout", timeout
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "signal", os.WTERMSIG(st)
    if os.WEXITSTATUS(st) != 0:
        return "exit", os.WEXITSTATUS(st)
    kind, val = pickle.loads(b"".join(buf))
    if kind == "exc":
        name, text, sig, tb, e = val
        if not isinstance(e, BaseException):
            e = Exception(f"{name}: {text}")
        if sig is not None:
            e.signature = sig
        e.remote = tb
        val = e
    return kind, val


class Skip(Exception):
    """Scenario does not exercise the property (counted, never a verdict)."""


class Ctx:
    """Hands out worlds for one run and collects what they did."""

    def __init__(self, seed, root, schedules=None, no_faults=False):
        self.seed = seed
        self.root = root
        self.replay = schedules  # tag -> list of decisions
        self.worlds = []
        self.tags = []
        self.probes = {}
        self.nontrivial = 0
        self.evals = 0
        self.phase = 0

    def world(self, tag, faults=(), root=None, **kw):
        """A new world. ``tag`` names it (unique within the run) in the replay file."""
        if tag in self.tags:
            raise HarnessError(f"duplicate world tag {tag}")
        rp = None
        if self.replay is not None:
            rp = self.replay.get(tag, [])
        w = World(
            seed=f"{self.seed}/{tag}",
            replay=rp,
            faults=faults,
            root=self.root if root is None else root,
            **kw,
        )
        self.worlds.append(w)
        self.tags.append(tag)
        return w

    def quiet(self, tag, fn, **kw):
        """Run fn in a world with the default schedule and no faults (reference runs)."""
        w = World(seed=0, replay=[], root=self.root, **kw)
        return w.run_client(fn, name="ref")

    def apart(self, fn):
        """Value of fn(), computed in a forked copy of this process, so that whatever fn does to
        process-global state of any kind (module data, caches, default arguments, generators)
        stays there. Call it before any simulated process exists."""
        st, val = forked(fn)
        if st == "ok":
            return val
        if st == "exc":
            raise val
        raise violation("process-died", f"{st} {val} in a reference run")

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, n=1, nontrivial=True):
        self.evals += n
        if nontrivial:
            self.nontrivial += n

    def schedules(self):
        return {t: _trim(w.dec.log) for t, w in zip(self.tags, self.worlds)}


def _trim(log):
    log = list(log)
    while log and log[-1] == 0:
        log.pop()
    return log


def run_one(prop, scenario, seed, root, schedules=None):
    """Returns a result dict: verdict in ok|violation|skip|error."""
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    old = os.getcwd()
    os.chdir(root)
    ctx = Ctx(seed, root, schedules)
    res = {"verdict": "ok", "message": "", "signature": ""}
    try:
        prop.run(scenario, ctx)
    except Skip as e:
        res["verdict"] = "skip"
        res["message"] = str(e)
    except HarnessError as e:
        res["verdict"] = "error"
        res["message"] = "".join(traceback.format_exception(e))[-3000:]
    except Violation as e:
        res["verdict"] = "violation"
        res["message"] = str(e)[:3000]
        res["signature"] = getattr(e, "signature", "") or str(e).split(":")[0]
    except core.SimCrash as e:
        res["verdict"] = "error"
        res["message"] = "SimCrash escaped: " + "".join(traceback.format_exception(e))[-3000:]
    except Exception as e:
        res["verdict"] = "error"
        res["message"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
        core.CURRENT = None
    res["schedules"] = ctx.schedules()
    res["steps"] = sum(w.steps for w in ctx.worlds)
    res["switches"] = sum(w.switches for w in ctx.worlds)
    res["sim_time"] = sum(w.time for w in ctx.worlds)
    res["worlds"] = len(ctx.worlds)
    # non-trivial: the scheduler had a real choice at least once, or a fault struck
    res["digests"] = [
        w.digest()[:16] for w in ctx.worlds if len(w.dec.log) > 0 or w.fault_counts
    ]
    fc, oc = {}, {}
    for w in ctx.worlds:
        for k, v in w.fault_counts.items():
            fc[k] = fc.get(k, 0) + v
        for k, v in w.counts.items():
            oc[k] = oc.get(k, 0) + v
    res["faults"] = fc
    res["ops"] = oc
    res["probes"] = ctx.probes
    res["evals"] = ctx.evals
    res["nontrivial"] = ctx.nontrivial
    res["tail"] = ctx.worlds[-1].tail[-30:] if ctx.worlds else []
    return res


def violation(signature, message):
    v = Violation(f"{signature}: {message}")
    v.signature = signature
    return v


def resolve_faults(plan, counts):
    """[cls, fraction, kind, arg] -> [cls, n, kind, arg] given how often each class occurs."""
    out = []
    for cls, fr, kind, arg in plan:
        c = counts.get(cls, 0)
        if c == 0:
            continue
        out.append([cls, min(c - 1, int(fr * c)), kind, arg])
    return out


class Prop:
    id = "?"
    quick_runs = 100
    thorough_runs = 1000
    real = []
    stub = []

    def gen(self, rng, k, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError

    def shrink(self, sc):
        """Smaller scenarios, best first."""
        return []


def load(pid):
    import importlib

    m = importlib.import_module(f"props.{pid.lower()}")
    return m.PROP
