"""C07: what a hidden semi-Markov family computes does not depend on processes or other series."""

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from . import hs
from .fp import fp, changed

FAULTS = {
    "pool_create": ["emfile", "eagain", "mem"],
    "fork": ["eagain", "mem"],
    "task": ["mem", "value", "late"],
    "result": ["mem"],
    "submit": ["mem"],
}


def same(sig, what, a, b, tol=1e-12):
    """Nested results: lists/tuples of arrays and numbers."""
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            raise violation(sig, f"{what}: structure differs")
        for j, (x, y) in enumerate(zip(a, b)):
            same(sig, f"{what}[{j}]", x, y, tol)
        return
    if b is None or a is None:
        if not (a is None and b is None):
            raise violation(sig, f"{what}: {a!r} vs {b!r}")
        return
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise violation(sig, f"{what}: shape {a.shape} vs {b.shape}")
    with np.errstate(all="ignore"):
        fin = np.isfinite(b)
        ok = np.array_equal(fin, np.isfinite(a))
        ok = ok and np.array_equal(a[~fin], b[~fin], equal_nan=True)
        if ok and np.any(fin):
            sc = max(1.0, float(np.max(np.abs(b[fin]))))
            ok = bool(np.all(np.abs(a[fin] - b[fin]) <= tol * sc))
    if not ok:
        raise violation(sig, f"{what}: {cm.diff(a, b)}")


OPS = {
    "llk": lambda f, b, ys, Xs, kw: f.llk(b.coef, b.split, ys, Xs, **kw),
    "gradient": lambda f, b, ys, Xs, kw: f.gradient(b.coef, b.split, ys, Xs, **kw),
    "log probabilities": lambda f, b, ys, Xs, kw: f.compute_od_probs(b.coef, b.split, ys, Xs, log=True, **kw),
    "probabilities": lambda f, b, ys, Xs, kw: f.compute_od_probs(b.coef, b.split, ys, Xs, log=False, **kw),
    "transitions": lambda f, b, ys, Xs, kw: f.compute_Tpi(b.coef, b.split, ys, Xs, **kw),
    "decoded states": lambda f, b, ys, Xs, kw: f.decode_viterbi(b.coef, b.split, ys, Xs, **kw),
    "forward residuals": lambda f, b, ys, Xs, kw: f.get_resid(b.coef, b.split, ys, Xs, resid_type="forward", **kw),
    "predictive residuals": lambda f, b, ys, Xs, kw: f.get_resid(b.coef, b.split, ys, Xs, resid_type="predictive", **kw),
    "duration residuals": lambda f, b, ys, Xs, kw: f.get_resid(b.coef, b.split, ys, Xs, resid_type="viterbi_dur", **kw),
}
SUM = {"llk", "gradient"}
ROWS = {"forward residuals", "predictive residuals", "duration residuals", "posterior duration residuals"}


class Values:
    """The values that the arrays handed to the family take over time (written in place)."""

    def __init__(self, b):
        self.b = b
        arr = {id(a): a for a in b.ys if a is not None}
        mat = {id(X): X for X in b.Xs if X is not None}
        self.arr = [(a, a.copy()) for a in arr.values()]
        self.mat = [(X, X.copy()) for X in mat.values()]
        self.coef = b.coef.copy()

    def values(self, v):
        c = self.coef + (0.03 * np.sin(np.arange(len(self.coef)) + 1).reshape(-1, 1) if v == 1 else 0)
        ys = [a * (1.03 if v == 2 else 1) for _, a in self.arr]
        if v == 4:
            # an impossible observation in one series
            s = self.b.sid[self.b.sc["seed"] % len(self.b.sid)] + 2
            for y in ys:
                if len(y) == self.b.lens.sum():
                    y[s] = 1e200
        return c, ys, [X.data * (1.02 if v == 3 else 1) for _, X in self.mat]

    def set(self, v):
        c, ys, Xs = self.values(v)
        self.b.coef[:] = c
        for (a, _), y in zip(self.arr, ys):
            a[:] = y
        for (X, _), x in zip(self.mat, Xs):
            X.data[:] = x

    def check(self, v, op):
        c, ys, Xs = self.values(v)
        if not np.array_equal(self.b.coef, c):
            raise violation("input-modified", f"{op} modified the coefficients")
        for (a, _), y in zip(self.arr, ys):
            if not np.array_equal(a, y):
                raise violation("input-modified", f"{op} modified the observations")
        for (X, X0), x in zip(self.mat, Xs):
            if not (np.array_equal(X.data, x) and np.array_equal(X.indices, X0.indices) and np.array_equal(X.indptr, X0.indptr)):
                raise violation("input-modified", f"{op} modified a model matrix")


class P(Prop):
    id = "C07"
    ops = OPS

    def gen(self, rng, k, tier):
        sc = hs.gen(rng, tier == "thorough" and rng.random() < 0.3)
        n = rng.choice([1, 2, 3, 4])
        # which computation, at which of the values the arguments take over time
        sc["ops"] = [[rng.choice(sorted(self.ops)), rng.choice([0, 0, 0, 1, 2, 3, 4])] for _ in range(n)]
        self.gen_more(sc, rng)
        if rng.random() < 0.3:
            cls = rng.choice(sorted(FAULTS))
            sc["faults"] = [[cls, round(rng.random(), 4), rng.choice(FAULTS[cls]), None]]
        return sc

    def gen_more(self, sc, rng):
        pass

    def call(self, sc, op, f, b, ys, Xs, kw):
        return self.ops[op](f, b, ys, Xs, kw)

    def run(self, sc, ctx):
        b = hs.Build(sc)
        var = Values(b)

        def serial(op, v, series=None):
            def go():
                var.set(v)
                f = b.family(1, series, own_sid=b.own() if series is None else True)
                ys, Xs = b.data(series)
                return self.call(sc, op, f, b, ys, Xs, b.kwargs(series))

            return go

        # One process, fresh family per operation; and every series on its own
        want = {}
        for op, v in sorted(set((o, v) for o, v in sc["ops"])):
            try:
                want[op, v] = ctx.quiet("ref", serial(op, v))
            except core.Violation:
                raise
            except Exception as e:
                # an input one process cannot handle either
                want[op, v] = e
                continue
            alone = [ctx.quiet("ref", serial(op, v, s)) for s in range(sc["n_series"])]
            if op in SUM:
                tot = alone[0]
                for x in alone[1:]:
                    tot = tot + x
            elif op in ROWS:
                tot = np.concatenate(alone, axis=0)
            else:
                tot = [x[0] for x in alone]
            same("series-not-independent", op, want[op, v], tot, 1e-8)
            ctx.check(1)

        # The same operations one after the other on one family, in parallel; the caller changes the
        # values of the arguments in between
        def job(cores):
            def go():
                fam = b.family(cores, own_sid=b.own())
                before = fp(fam)
                out = []
                for op, v in sc["ops"]:
                    var.set(v)
                    ys, Xs = b.data()
                    try:
                        out.append((op, v, self.call(sc, op, fam, b, ys, Xs, b.kwargs())))
                    except Exception as e:
                        out.append((op, v, e))
                    var.check(v, op)
                    d = changed(before, fp(fam))
                    if d:
                        raise violation("family-modified", f"{op} changed " + ", ".join(d[:4]))
                return out

            return go

        w = ctx.world("par", n_cpu=sc["n_cpu"])
        self.judge(sc, ctx, w, job(sc["cores"]), want, "parallel-differs")
        counts = dict(w.counts)
        ctx.probe("parallel tasks", counts.get("task", 0))
        # repeated on one family in one process: calls leave nothing behind
        self.judge(sc, ctx, ctx.world("ser", n_cpu=sc["n_cpu"]), job(1), want, "history-dependent")
        if sc.get("faults"):
            w = ctx.world("faulty", faults=resolve_faults(sc["faults"], counts), n_cpu=sc["n_cpu"])
            self.judge(sc, ctx, w, job(sc["cores"]), want, "wrong-after-fault")
            w = ctx.world("again", n_cpu=sc["n_cpu"])
            self.judge(sc, ctx, w, job(sc["cores"]), want, "retry-differs")

    def judge(self, sc, ctx, w, fn, want, sig):
        o = w.run_clients([("a", fn)])[0]
        if o.exc is not None:
            raise o.exc
        failed = 0
        for op, j, v in o.value:
            ref = want[op, j]
            if isinstance(v, core.Violation):
                raise v
            if isinstance(v, Exception):
                if isinstance(ref, Exception):
                    continue
                failed += 1
                if failed > sum(w.fault_counts.values()):
                    raise violation(sig.split("-")[0] + "-fails", f"{op}: {cm.exc_text(v)}")
                continue
            if isinstance(ref, Exception):
                raise violation(sig, f"{op}: one process raises {cm.exc_text(ref)}, several return")
            same(sig, op, v, ref)
            ctx.check(1)
        o.value = None
        if w.live_pools > 0:
            raise violation("workers-leaked", f"{w.live_pools} worker pools survive the call")

    def shrink(self, sc):
        out = []
        if len(sc["ops"]) > 1:
            for j in range(len(sc["ops"])):
                out.append(dict(sc, ops=sc["ops"][:j] + sc["ops"][j + 1 :]))
        for j, (op, v) in enumerate(sc["ops"]):
            if v:
                out.append(dict(sc, ops=sc["ops"][:j] + [[op, 0]] + sc["ops"][j + 1 :]))
        return out + hs.shrink(sc)


PROP = P()
