"""C10: a chain that fails is an error, never made-up samples."""

import gc

from vsim import core
from vsim.harness import violation, resolve_faults
from . import common as cm
from . import md
from .c09 import P as C09P, sample, agree, gen_call
from vsim.intr import Lines
from .fp import fp, changed

KINDS = ["gauss", "gauss", "poisson", "binomial", "binomial", "gamma", "prophaz"]
FAULTS = {
    "manager_create": ["mem", "emfile", "eagain"],
    "fork": ["eagain", "mem"],
    "chain": ["kill", "kill", "value", "mem"],
    "chain_end": ["kill"],
    "manager": ["eio", "crash", "interrupt"],
    "shm_create": ["enospc", "mem"],
    "shm_attach": ["mem", "emfile", "crash", "interrupt"],
}


class Stop(Exception):
    pass


# Whatever class the callback's exception belongs to, it has to surface
STOPS = {"error": Stop}
for _b in (OSError, ValueError, KeyError, RuntimeError, EOFError, MemoryError, StopIteration):
    STOPS[_b.__name__] = type("Stop" + _b.__name__, (Stop, _b), {})


class P(C09P):
    id = "C10"

    def gen(self, rng, k, tier):
        sc = super().gen(rng, k, tier)
        sc["model"] = md.gen(rng, KINDS, 40, 70)
        sc["model"]["outer"] = 1
        c = sc["call"]
        c["n_steps"] = rng.choice([2, 2, 3, 4])
        c["sample_rho"] = rng.random() < 0.2
        c["n_chains"] = rng.choice([2, 3, 4])
        if rng.random() < 0.2:
            sc["stop"] = [rng.randint(1, max(1, c["n_iter"])), rng.choice(["interrupt", "interrupt", *sorted(STOPS)])]
            sc["faults"] = []
        elif rng.random() < 0.2:
            # the user interrupts, or memory runs out, at any line of the calling process
            sc["faults"] = []
            sc["hit"] = [round(rng.random(), 5), rng.choice(["interrupt", "interrupt", "mem"])]
        else:
            sc["faults"] = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                cls = rng.choice(sorted(FAULTS) + ["chain", "chain"])
                sc["faults"].append([cls, round(rng.random(), 4), rng.choice(FAULTS[cls]), None])
        return sc

    lines, fired, at = 0, False, None

    def counted(self, sc, m):
        """A run without faults, to know how many lines there are to be cut off at."""
        if not sc.get("hit"):
            return sample(m, sc["call"], True)
        with Lines(None) as ln:
            r = sample(m, sc["call"], True)
        self.lines = ln.n
        return r

    def hit(self, sc, w, m, log, stop):
        self.fired = False
        if not sc.get("hit"):
            return sample(m, sc["call"], True, log, stop)
        with Lines(w, int(sc["hit"][0] * self.lines), sc["hit"][1]) as ln:
            try:
                return sample(m, sc["call"], True, log, stop)
            finally:
                self.fired, self.at = ln.fired, ln.where

    def run(self, sc, ctx):
        m = self.model(sc, ctx)
        before = fp(m)
        want, wlog = self.reference(sc, ctx, m)
        clean = ctx.world("clean", n_cpu=sc["n_cpu"])
        try:
            got = clean.run_client(lambda: self.counted(sc, m))
        except core.Violation:
            raise
        except Exception as e:
            raise violation("parallel-fails", cm.exc_text(e))
        agree("parallel-differs", got, want)

        stop = None
        if sc.get("stop"):
            stop = (sc["stop"][0], STOPS[sc["stop"][1]]("from the callback") if sc["stop"][1] != "interrupt" else KeyboardInterrupt())
        log = []
        w = ctx.world("faulty", faults=resolve_faults(sc["faults"], clean.counts), n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", lambda: self.hit(sc, w, m, log, stop))])[0]
        exc, val = o.exc, o.value
        if isinstance(exc, core.Violation):
            raise exc
        if exc is None and val is None:
            # the fault took the calling process down: nothing to observe but what it left behind
            ctx.probe("caller killed")
        elif exc is None:
            if stop is not None and any(it >= stop[0] for it, _ in wlog):
                raise violation("callback-error-lost", "an exception of the callback did not surface")
            if sc.get("hit") and self.fired and sc["hit"][1] == "interrupt":
                raise violation("interrupt-lost", f"an interrupt in {self.at} did not surface")
            agree("wrong-after-fault", val, want)
            ctx.probe("completed despite fault")
        else:
            if not w.fault_counts and stop is None:
                raise violation("fails-without-fault", cm.exc_text(exc))
            if stop is not None and not isinstance(exc, (Stop, KeyboardInterrupt)):
                raise violation("callback-error-lost", f"the callback's exception came out as {cm.exc_text(exc)}")
            ctx.probe("raised")
        # whatever was reported before the fault was right
        if len(log) > len(wlog):
            raise violation("callback-differs", "more callbacks than without the fault")
        for (i, a), (it, b) in zip(log, wlog):
            if i != it:
                raise violation("callback-differs", f"callback at {i} instead of {it}")
            agree("wrong-after-fault", a, b, f"callback at {it}, ")
        ctx.check(3)
        d = changed(before, fp(m))
        if d:
            raise violation("model-modified", "the failed call changed " + ", ".join(d[:4]))
        if exc is not None:
            exc.__traceback__ = None
            exc.__context__ = None
        o.exc = o.value = exc = None
        stop = None
        for p in w.procs:
            p.exc = None
        gc.collect()
        if w.shm and not any(k.endswith(":crash") for k in w.fault_counts):
            raise violation("shm-leaked", f"{len(w.shm)} shared memory segments outlive the call")
        # faults are over: the same call on the same model
        w = ctx.world("again", n_cpu=sc["n_cpu"])
        try:
            got = w.run_client(lambda: sample(m, sc["call"], True))
        except core.Violation:
            raise
        except Exception as e:
            raise violation("retry-fails", cm.exc_text(e))
        agree("retry-differs", got, want)
        ctx.check(2)

    def shrink(self, sc):
        out = []
        if len(sc.get("faults", [])) > 1:
            for j in range(len(sc["faults"])):
                out.append(dict(sc, faults=[sc["faults"][j]]))
        return out + super().shrink(sc)


PROP = P()
