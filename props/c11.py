"""C11: smoothing parameter uncertainty corrections do not depend on processes."""

import numpy as np
import scipy as scp

from vsim import core
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from . import md
from .c09 import churn
from .fp import fp, changed

KINDS = ["gauss", "gauss", "gauss", "gamma", "poisson", "binomial", "scaledt", "gaumlss", "gammals", "gsmm", "prophaz"]
FAULTS = {
    "pool_create": ["emfile", "eagain", "mem"],
    "fork": ["eagain", "mem"],
    "task": ["mem", "value", "late"],
    "result": ["mem"],
    "submit": ["mem"],
    "shm_create": ["enospc", "mem"],
    "shm_attach": ["enoent", "emfile"],
    "manager_create": ["eagain"],
}
NESTED = {"x": "i", "x+ri": "ri", "x+w": "x", "by": "x", "ri": "i", "x+z": "x", "fs": "x"}


def flat(v, out):
    """Numbers of a nested result, in order."""
    if v is None:
        out.append(None)
    elif isinstance(v, dict):
        for k in sorted(v):
            flat(v[k], out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            flat(x, out)
    elif scp.sparse.issparse(v):
        out.append(v.toarray())
    else:
        out.append(np.asarray(v, dtype=float))
    return out


NAMES = {
    "correct_VB": ["V", "LV", "Vp", "Vpr", "edf", "total_edf", "edf2", "total_edf2", "expected_edf", "mean_coef"],
    "estimateVp": ["Vp", "Vpr", "Ri", "Rir", "ep", "dBetadRhos"],
}
# Roots are unique up to signs; the products are compared instead
SKIP = {"LV", "Ri", "Rir"}


def gap(got, want):
    """Largest relative difference, or a description of a structural one."""
    worst = 0.0
    for a, b in zip(got, want):
        if a is None or b is None:
            if (a is None) != (b is None):
                return "a part is missing"
            continue
        if a.shape != b.shape:
            return f"shape {a.shape} vs {b.shape}"
        fin = np.isfinite(b)
        if not np.array_equal(fin, np.isfinite(a)):
            return "finite in one, not in the other"
        if np.any(fin):
            s = max(1e-6, float(np.max(np.abs(b[fin]))))
            worst = max(worst, float(np.max(np.abs(a[fin] - b[fin]))) / s)
    return worst


def limit(m, by):
    """From now on the family has no log-likelihood where means exceed those of the fit by much."""
    fam = m.family
    top = by * float(np.max(np.abs(m.preds[0])))
    if hasattr(fam, "dpars"):
        base = type(fam)

        class Limited(base):
            def llk(self, y, mu, *rest):
                if np.max(np.abs(mu)) > top:
                    raise FloatingPointError("mean out of range")
                return base.llk(self, y, mu, *rest)

    else:
        base = type(fam)

        class Limited(base):
            def llk(self, coef, coef_split_idx, ys, Xs):
                eta = Xs[0] @ np.split(coef, coef_split_idx)[0]
                if np.max(np.abs(eta)) > top:
                    raise FloatingPointError("mean out of range")
                return base.llk(self, coef, coef_split_idx, ys, Xs)

    fam.__class__ = Limited


class P(Prop):
    id = "C11"

    def gen(self, rng, k, tier):
        s = md.gen(rng, KINDS, 50, 110)
        if s["kind"] == "prophaz" and s["terms"] in ("x", "x+z", "ri", "by"):
            s["terms"] = rng.choice(["x+w", "x+ri"])
        s["outer"] = rng.choice([2, 4, 10])
        op = rng.choice(["correct_VB", "correct_VB", "correct_VB", "estimateVp", "compare_CDL"])
        c = dict(
            grid=rng.choice(["JJJ1", "JJJ2", "JJJ2", "JJJ3", "JJJ3"]),
            nR=rng.choice([1, 2, 5, 9]),
            method=rng.choice(["Chol", "Chol", "QR/Chol"]),
            only_expected_edf=rng.random() < 0.35,
            use_importance_weights=rng.random() < 0.6,
            prior=rng.random() < 0.3,
            recompute_H=rng.random() < 0.4,
            compute_Vcc=rng.random() < 0.7,
            fidiff=rng.random() < 0.1,
            VP=rng.choice(["JJJ1", "JJJ1", "JJJ1", "JJJ2"]),
            t1=rng.random() < 0.4,
            seed=rng.choice([0, 3, 20, 1234]),
        )
        if s["kind"] in ("gsmm", "gaumlss") and rng.random() < 0.4:
            # some candidates have no likelihood
            s["limit"] = rng.choice([1.0005, 1.005, 1.03])
            s["method"] = "Chol"
        if s["kind"] not in ("gauss", "poisson"):
            # fixed to 250 candidates, too slow otherwise
            c["VP"] = "JJJ1"
        if s["kind"] not in ("gauss", "poisson", "gamma", "binomial"):
            c["fidiff"] = False
        if s["terms"] in ("x", "ri", "x+z"):
            # one smoothing parameter: a single sample is not supported
            c["nR"] = max(2, c["nR"])
        sc = dict(model=s, op=op, call=c, n_c=rng.choice([2, 3, 4, 8]), n_cpu=rng.choice([1, 2, 8]), churn=rng.randrange(1000))
        if rng.random() < 0.4:
            cls = rng.choice(sorted(FAULTS))
            sc["faults"] = [[cls, round(rng.random(), 4), rng.choice(FAULTS[cls]), None]]
        return sc

    def models(self, sc, ctx, bump=0.0):
        s = sc["model"]
        df = md.frame(s)
        if bump:
            rng = np.random.default_rng(5)
            y = "y"
            df[y] = df[y] * (1 + bump * rng.normal(size=len(df)))
        ms = []
        specs = [s]
        if sc["op"] == "compare_CDL":
            specs.append(dict(s, terms=NESTED[s["terms"]] if s["kind"] != "prophaz" else "ri"))
        for sp in specs:
            try:
                m = ctx.quiet("fit", lambda: md.fit(sp, md.build(sp, df.copy())))
            except core.Violation:
                raise
            except Exception as e:
                raise Skip("fit fails: " + cm.exc_text(e))
            if m.coef is None or not np.all(np.isfinite(m.coef)) or m.lvi is None or len(m.overall_penalties) == 0:
                raise Skip("fit not usable")
            if sp.get("limit"):
                limit(m, sp["limit"])
            ms.append(m)
        return ms

    def call(self, sc, ms, n_c):
        from mssm.src.python import utils as U
        from mssm.src.python.compare import compare_CDL

        c = sc["call"]
        prior = U.MVUniformRhoPrior(np.log(1e-7), np.log(1e12)) if c["prior"] else None
        if sc["op"] == "correct_VB":
            r = U.correct_VB(
                ms[0], nR=c["nR"], grid_type=c["grid"], n_c=n_c, form_t1=c["t1"], method=c["method"],
                only_expected_edf=c["only_expected_edf"] and c["grid"] != "JJJ1", Vp_fidiff=c["fidiff"],
                use_importance_weights=c["use_importance_weights"], prior=prior, recompute_H=c["recompute_H"],
                seed=c["seed"], compute_Vcc=c["compute_Vcc"], VP_grid_type=c["VP"], df=40,
            )
            r = [x for n, x in zip(NAMES["correct_VB"], r) if n not in SKIP]
        elif sc["op"] == "estimateVp":
            r = U.estimateVp(
                ms[0], nR=c["nR"] + 4, grid_type="JJJ2" if c["grid"] != "JJJ1" else "JJJ1", n_c=n_c,
                Vp_fidiff=c["fidiff"], use_importance_weights=c["use_importance_weights"], prior=prior,
                method=c["method"], seed=c["seed"],
            )
            r = [x for n, x in zip(NAMES["estimateVp"], r) if n not in SKIP]
        else:
            r = compare_CDL(
                ms[0], ms[1], correct_V=True, correct_t1=c["t1"], perform_GLRT=len(ms[0].coef) >= len(ms[1].coef) and c["t1"],
                nR=c["nR"], n_c=n_c, grid=c["grid"], method=c["method"], seed=c["seed"],
                only_expected_edf=c["only_expected_edf"] and c["grid"] != "JJJ1" and not c["t1"], Vp_fidiff=False,
                use_importance_weights=c["use_importance_weights"], prior=prior, recompute_H=c["recompute_H"],
                compute_Vcc=c["compute_Vcc"],
            )
        return flat(r, [])

    def run(self, sc, ctx):
        ms = self.models(sc, ctx)
        before = [fp(m) for m in ms]

        def unchanged(when):
            for m, b in zip(ms, before):
                d = changed(b, fp(m))
                if d:
                    raise violation("model-modified", f"{when} changed " + ", ".join(d[:4]))

        try:
            want = ctx.quiet("ref", lambda: self.call(sc, ms, 1))
        except core.Violation:
            raise
        except Exception as e:
            want = e
        unchanged("one process")
        # Same call, one process, other history
        if not isinstance(want, Exception):

            def again():
                churn(sc["churn"])
                if sc["churn"] % 3 == 0:
                    # another question first
                    o = dict(sc, op="estimateVp", call=dict(sc["call"], seed=99, grid="JJJ2" if sc["churn"] % 2 else "JJJ1", VP="JJJ1"))
                    try:
                        self.call(o, ms, 1)
                    except Exception:
                        pass
                return self.call(sc, ms, 1)

            got = ctx.quiet("ser2", again)
            g = gap(got, want)
            if isinstance(g, str) or g > 1e-10:
                raise violation("history-dependent", f"{sc['op']} repeated with the same seed: {g}")
            ctx.check(1)

        def par():
            churn(sc["churn"] + 1)
            return self.call(sc, ms, sc["n_c"])

        w = ctx.world("par", n_cpu=sc["n_cpu"])
        ok = self.judge(sc, ctx, w, par, want, "parallel-differs")
        counts = dict(w.counts)
        ctx.probe("parallel tasks", counts.get("task", 0))
        unchanged("several processes")
        if not ok or isinstance(want, Exception):
            raise Skip("one process fails: " + cm.exc_text(want))
        if sc.get("faults"):
            w = ctx.world("faulty", faults=resolve_faults(sc["faults"], counts), n_cpu=sc["n_cpu"])
            self.judge(sc, ctx, w, par, want, "wrong-after-fault")
            unchanged("the failed call")
            w = ctx.world("retry", n_cpu=sc["n_cpu"])
            self.judge(sc, ctx, w, par, want, "retry-differs")

    def sensitive(self, sc, ctx, want):
        """How much the reference moves when the data moves by 1e-9."""
        try:
            ms = self.models(sc, ctx, bump=1e-9)
            g = gap(ctx.quiet("probe", lambda: self.call(sc, ms, 1)), want)
        except Exception:
            return True
        return isinstance(g, str) or g > 1e-6

    def judge(self, sc, ctx, w, fn, want, sig):
        o = w.run_clients([("a", fn)])[0]
        if isinstance(o.exc, core.Violation):
            raise o.exc
        if o.exc is not None:
            if isinstance(want, Exception):
                return False
            if not w.fault_counts:
                raise violation(sig.split("-")[0] + "-fails", cm.exc_text(o.exc))
            o.exc = None
        elif isinstance(want, Exception):
            raise violation(sig, f"one process raises {cm.exc_text(want)}, several return")
        else:
            g = gap(o.value, want)
            if isinstance(g, str) or g > 1e-6:
                if self.sensitive(sc, ctx, want):
                    raise Skip("ill-conditioned")
                raise violation(sig, f"{sc['op']} with {sc['n_c']} processes vs 1: {g}")
            ctx.check(1)
        if w.live_pools > 0:
            raise violation("workers-leaked", f"{w.live_pools} worker pools survive the call")
        return True

    def shrink(self, sc):
        out = []
        c = sc["call"]
        for k, v in [("prior", False), ("recompute_H", False), ("fidiff", False), ("VP", "JJJ1"), ("t1", False),
                     ("only_expected_edf", False), ("use_importance_weights", False), ("compute_Vcc", True), ("nR", 2),
                     ("nR", 1), ("grid", "JJJ2")]:
            if c.get(k) != v:
                out.append(dict(sc, call=dict(c, **{k: v})))
        m = sc["model"]
        for k, v in [("kind", "gauss"), ("terms", "x"), ("terms2", "i"), ("na", 0), ("n", 50)]:
            if m.get(k) != v:
                mm = dict(m, **{k: v})
                if k == "kind":
                    mm["method"] = "QR"
                out.append(dict(sc, model=mm))
        if sc["n_c"] > 2:
            out.append(dict(sc, n_c=2))
        return out


PROP = P()
