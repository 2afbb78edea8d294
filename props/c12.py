"""C12: Hessian columns computed by worker processes equal the serial ones."""

import numpy as np
import scipy as scp

from vsim import core
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from . import hs
from . import md
from . import uf
from .c11 import gap
from .fp import fp, changed

FAULTS = {
    "pool_create": ["emfile", "eagain", "mem"],
    "fork": ["eagain", "mem"],
    "task": ["mem", "value", "late"],
    "result": ["mem"],
    "submit": ["mem"],
}
FIT_KINDS = ["gsmm", "prophaz", "multigauss", "user", "user-grad", "user-extra"]
HS_CLASSES = ("hsmm",)


class P(Prop):
    id = "C12"

    def gen(self, rng, k, tier):
        mode = rng.choice(["direct", "direct", "fit"])
        kind = rng.choice(FIT_KINDS + (["hsmm"] if mode == "direct" else []))
        sc = dict(
            mode=mode,
            kind=kind,
            n_c=rng.choice([2, 2, 3, 4, 10]),
            n_cpu=rng.choice([1, 2, 8]),
            cols=rng.choice(["all", "some", "some", "one", "shuffled", "last"]),
            cseed=rng.randrange(10**6),
        )
        if kind == "hsmm":
            h = hs.gen(rng)
            h.update(n_series=rng.choice([1, 2, 3]), arg_sid=False, cores=rng.choice([1, 1, 2]))
            h["lens"] = [min(L, 26 if h["kind"] == "hmp" else 12) for L in h["lens"]][:3] + [12] * 3
            h["lens"] = h["lens"][: h["n_series"]]
            sc["hs"] = h
            sc["cols"] = rng.choice(["some", "one"])
        else:
            m = md.gen(rng, ["gsmm"], 40, 90)
            m["kind"] = kind
            m["outer"] = rng.choice([1, 2, 3])
            m["na"] = 0
            m["nk"] = rng.choice([4, 5])
            if kind == "prophaz" and m["terms"] == "by":
                m["terms"] = "x+ri"
            sc["model"] = m
            sc["fit"] = dict(
                budget=rng.choice([1.0, 1.0, 0.5, 3, [0], [1, 3], [0, 2, 4]]),
                sample_hessian=rng.random() < 0.6,
                control=rng.choice([None, 0, 2]),
                extend=rng.random() < 0.3,
                seed=rng.choice([0, 4]),
                final=rng.choice([1, 1, None]),
                inner=rng.choice([5, 20]),
            )
        if rng.random() < 0.35:
            cls = rng.choice(sorted(FAULTS))
            sc["faults"] = [[cls, round(rng.random(), 4), rng.choice(FAULTS[cls]), None]]
        return sc

    # -- one Hessian ------------------------------------------------------------------------

    def direct(self, sc, ctx):
        rng = np.random.default_rng(sc["cseed"])
        if sc["kind"] == "hsmm":
            b = hs.Build(sc["hs"])
            fam1 = b.family(1)
            famk = b.family(sc["hs"]["cores"])
            ys, Xs = b.data()
            coef, split = b.coef, b.split
        else:
            m = ctx.quiet("build", lambda: uf.build(sc["model"]))
            fam1 = famk = m.family
            ys, Xs, coef, split = ctx.quiet("parts", lambda: uf.parts(sc["model"], m, rng))
        p = len(coef)
        cols = {
            "all": np.arange(p),
            "some": np.sort(rng.choice(p, size=min(p, int(rng.integers(2, 5))), replace=False)),
            "one": np.array([int(rng.integers(0, p))]),
            "shuffled": rng.permutation(p)[: max(2, p // 2)],
            "last": np.arange(max(0, p - 3), p),
        }[sc["cols"]]

        def serial():
            one = [np.asarray(fam1.jcolhessian(j, coef.copy(), list(split), ys, Xs), dtype=float).flatten() for j in cols]
            return one, fam1.jhessian(cols.copy(), coef.copy(), list(split), ys, Xs, n_c=1)

        try:
            one, want = ctx.quiet("ref", serial)
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("one process fails: " + cm.exc_text(e))
        W = want.toarray()
        if not np.all(np.isfinite(W)):
            raise Skip("Hessian not finite")
        s = max(1.0, float(np.max(np.abs(W))))
        # the serial matrix holds exactly the requested rows and columns, each at its place
        if W.shape != (p, p) or not np.array_equal(W, W.T):
            raise violation("not-symmetric", f"shape {W.shape}, asymmetry {np.max(np.abs(W - W.T)):.3g}")
        rest = np.setdiff1d(np.arange(p), cols)
        if np.any(W[np.ix_(rest, rest)] != 0):
            raise violation("wrong-columns", "entries outside of the requested rows and columns")
        for j, h in zip(cols, one):
            alt = h.copy()
            for i, g in zip(cols, one):
                alt[i] = g[j]
            d = np.minimum(np.abs(W[:, j] - h), np.abs(W[:, j] - alt))
            if np.max(d) > 1e-9 * s:
                raise violation("wrong-columns", f"column {j} differs by {np.max(d):.3g} from the column on its own")
        keep = (coef.copy(), fp([ys, Xs, split]))

        def par():
            if sc["cseed"] % 2:
                # other coefficients, in the same array, first
                coef[:] = keep[0] + 0.02
                famk.jhessian(cols[:2], coef, split, ys, Xs, n_c=sc["n_c"])
                coef[:] = keep[0]
            return famk.jhessian(cols, coef, split, ys, Xs, n_c=sc["n_c"]).toarray()

        def judge(got):
            if got.shape != W.shape or not np.max(np.abs(got - W)) <= 1e-9 * s:
                raise violation("parallel-differs", cm.diff(got, W) if got.shape == W.shape else str(got.shape))
            if not np.array_equal(coef, keep[0]) or changed(keep[1], fp([ys, Xs, split])):
                raise violation("input-modified", "jhessian changed its arguments")

        self.drive(sc, ctx, par, judge)

    # -- a whole fit ------------------------------------------------------------------------

    def fitted(self, sc, n_c, bump=0.0):
        f = sc["fit"]
        m = uf.build(sc["model"], bump=bump)
        m.fit(
            progress_bar=False, n_cores=n_c, max_outer=sc["model"]["outer"], max_inner=f["inner"], method="qEFS",
            structured_qefs_budget=list(f["budget"]) if isinstance(f["budget"], list) else f["budget"],
            sample_hessian=f["sample_hessian"], control_lambda=f["control"], extend_lambda=f["extend"],
            seed=f["seed"], qEFS_final_memory_usage=f["final"],
        )
        V = None if m.lvi is None else (m.lvi.T @ m.lvi).toarray()
        return [
            np.asarray(m.coef, dtype=float), np.array([p.lam for p in m.overall_penalties]),
            np.array([float(m.edf)]), np.array(m.term_edf, dtype=float), V,
            np.array([float(m.penalty)]), np.array([float(m.get_llk(False))]),
        ]

    def fit(self, sc, ctx):
        try:
            want = ctx.quiet("ref", lambda: self.fitted(sc, 1))
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("one process fails: " + cm.exc_text(e))
        if not np.all(np.isfinite(want[0])):
            raise Skip("fit not usable")

        def judge(got):
            g = gap(got, want)
            if isinstance(g, str) or g > 1e-6:
                try:
                    q = gap(ctx.quiet("probe", lambda: self.fitted(sc, 1, 1e-9)), want)
                except Exception:
                    q = "fails"
                if isinstance(q, str) or q > 1e-6:
                    raise Skip("ill-conditioned")
                raise violation("parallel-differs", f"fit with {sc['n_c']} processes vs 1: {g}")

        self.drive(sc, ctx, lambda: self.fitted(sc, sc["n_c"]), judge)

    # ---------------------------------------------------------------------------------------

    def drive(self, sc, ctx, fn, judge):
        w = ctx.world("par", n_cpu=sc["n_cpu"])
        self.call(ctx, w, fn, judge)
        counts = dict(w.counts)
        ctx.probe("parallel tasks", counts.get("task", 0))
        if sc.get("faults"):
            w = ctx.world("faulty", faults=resolve_faults(sc["faults"], counts), n_cpu=sc["n_cpu"])
            self.call(ctx, w, fn, judge)
            w = ctx.world("again", n_cpu=sc["n_cpu"])
            self.call(ctx, w, fn, judge)

    def call(self, ctx, w, fn, judge):
        o = w.run_clients([("a", fn)])[0]
        if isinstance(o.exc, core.Violation):
            raise o.exc
        if o.exc is not None:
            if not w.fault_counts:
                raise violation("parallel-fails", cm.exc_text(o.exc))
        else:
            judge(o.value)
            ctx.check(1)
        o.exc = None
        if w.live_pools > 0:
            raise violation("workers-leaked", f"{w.live_pools} worker pools survive the call")

    def run(self, sc, ctx):
        if sc["mode"] == "direct":
            self.direct(sc, ctx)
        else:
            self.fit(sc, ctx)

    def shrink(self, sc):
        out = []
        if sc["mode"] == "fit":
            for k, v in [("extend", False), ("control", 0), ("budget", [0]), ("sample_hessian", True), ("final", 1)]:
                if sc["fit"].get(k) != v:
                    out.append(dict(sc, fit=dict(sc["fit"], **{k: v})))
        if "model" in sc:
            m = sc["model"]
            for k, v in [("terms", "x"), ("terms2", "i"), ("outer", 1), ("n", 40)]:
                if m.get(k) != v:
                    out.append(dict(sc, model=dict(m, **{k: v})))
        else:
            out += [dict(sc, hs=h) for h in hs.shrink(sc["hs"])]
        if sc["cols"] not in ("one", "some"):
            out.append(dict(sc, cols="some"))
        if sc["n_c"] > 2:
            out.append(dict(sc, n_c=2))
        return out


PROP = P()
