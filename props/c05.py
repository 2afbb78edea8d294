"""C05: inverse factors and trace products computed by worker processes equal the serial ones."""

import numpy as np
import scipy as scp

from vsim import core
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from .fp import fp, changed

FAULTS = {
    "pool_create": ["emfile", "eagain", "mem"],
    "fork": ["eagain", "mem"],
    "task": ["mem", "late"],
    "result": ["mem"],
    "submit": ["mem"],
    "shm_create": ["enospc", "mem"],
    "shm_attach": ["enoent", "emfile"],
    "manager_create": ["eagain"],
}


def lower(rng, n, blk, arrow):
    """Sparse lower triangular matrix with a sparse inverse: small blocks plus a few full rows."""
    r, c, v = [], [], []
    j = 0
    while j < n:
        b = min(blk, n - j)
        for a in range(b):
            for q in range(a + 1):
                r.append(j + a)
                c.append(j + q)
                v.append(rng.uniform(1, 2) if q == a else rng.normal() * 0.3)
        j += b
    for a in range(max(0, n - arrow), n):
        cols = np.nonzero(rng.uniform(size=a) < 0.3)[0]
        r.extend([a] * len(cols))
        c.extend(cols.tolist())
        v.extend((rng.normal(size=len(cols)) * 0.05).tolist())
    L = scp.sparse.coo_array((v, (r, c)), shape=(n, n)).tocsc()
    L.sum_duplicates()
    L.sort_indices()
    return L


def solve(L, R):
    return scp.sparse.csc_array(
        scp.sparse.linalg.spsolve(scp.sparse.csc_matrix(L), scp.sparse.csc_matrix(R))
    )


class P(Prop):
    id = "C05"

    def gen(self, rng, k, tier):
        kind = rng.choice(["linv", "trace", "trace", "cluster", "cluster", "fit"])
        sc = dict(
            kind=kind,
            seed=rng.randrange(10**6),
            n=rng.choice([4000, 4001, 4500, 5999, 6000, 6500, 8001, 10050]),
            blk=rng.choice([1, 3, 5]),
            arrow=rng.choice([0, 1, 2]),
            n_c=rng.choice([2, 2, 3, 4, 10]),
            nk=rng.choice([4, 5, 9]),
            off=rng.choice([0, 1, 3, 20, 101]),
            null=rng.random() < 0.3,
            drop=rng.choice([0, 0, 1, 3]),
            reps=rng.choice([20, 45, 90]),
            n_cpu=rng.choice([1, 2, 8]),
        )
        if kind == "cluster":
            # clusters are shared among processes from 20 per process on
            sc["reps"] = rng.choice([20, 20 * sc["n_c"] - 1, 20 * sc["n_c"], 20 * sc["n_c"] + 7, 90])
            sc["nk"] = rng.choice([3, 4, 5])
        sc["full"] = rng.random() < 0.5
        if kind == "trace" and rng.random() < 0.3:
            # one solve per level: many levels
            sc.update(null=True, nk=2, n=rng.choice([8001, 8300, 12011, 12060, 16050]))
        if kind == "fit" and rng.random() < 0.7:
            sc["kind"] = rng.choice(["linv", "trace"])
        if sc["kind"] == "linv" and rng.random() < 0.5:
            # enough columns for more than a handful of blocks
            sc.update(n=rng.choice([10050, 12003, 14011, 16000]), n_c=rng.choice([5, 6, 8, 10]), blk=rng.choice([1, 3]), arrow=rng.choice([0, 1]))
        if rng.random() < 0.35:
            cls = rng.choice(sorted(FAULTS))
            sc["faults"] = [[cls, round(rng.random(), 4), rng.choice(FAULTS[cls]), None]]
        return sc

    def lterm(self, sc, rng, n):
        from mssm.src.python.custom_types import LambdaTerm, PenType

        nk, off = sc["nk"], min(sc["off"], n // 2)
        rep = (n - off) // nk
        if sc["kind"] == "cluster":
            rep = min(rep, sc["reps"] * 2)
            assert rep >= sc["reps"]
        null = sc["null"] and sc["kind"] == "trace"
        rank = nk if sc.get("full") else nk - 1
        if null:
            d = np.zeros((nk, nk))
            d[nk - 1, nk - 1] = 1.0
            rank = 1
        else:
            d = np.zeros((nk, nk))
            d[:, :rank] = np.tril(rng.normal(size=(nk, rank)))
        D = scp.sparse.lil_array((n, n))
        for j in range(rep):
            a = off + j * nk
            D[a : a + nk, a : a + nk] = d
        D = D.tocsc()
        lt = LambdaTerm()
        lt.S_J = scp.sparse.csc_array(d @ d.T)
        lt.D_J_emb = D
        lt.S_J_emb = (D @ D.T).tocsc()
        lt.rep_sj = rep
        lt.start_index = off
        lt.rank = rank * rep
        lt.type = PenType.NULL if null else PenType.DIFFERENCE
        if sc["kind"] == "cluster":
            nclust = min(rep, sc["reps"])
            lt.clust_series = [int(s) for s in rng.choice(rep, size=nclust, replace=False)]
            lt.clust_weights = [rng.uniform(0.2, 1, size=rng.integers(1, 4)) for _ in range(nclust)]
        return lt

    def run(self, sc, ctx):
        from mssm.src.python import matrix_solvers as ms

        rng = np.random.default_rng(sc["seed"])
        if sc["kind"] == "fit":
            return self.run_fit(sc, ctx)
        n = sc["n"]
        if sc["kind"] == "cluster":
            n = min(n, max(1200, sc["off"] + sc["nk"] * sc["reps"] + 5))
        L = lower(rng, n, sc["blk"], sc["arrow"])
        perm = rng.permutation(n)

        if sc["kind"] == "linv":
            want = cm.dense(0)

            def job(n_c):
                return lambda: ms.compute_Linv(L, n_c)

            def judge(res):
                R = scp.sparse.csc_array(res)
                if R.shape != (n, n):
                    raise violation("parallel-differs", f"shape {R.shape}")
                E = (L @ R - scp.sparse.eye_array(n, format="csc")).tocoo()
                e = float(np.max(np.abs(E.data))) if E.nnz else 0.0
                if not e < 1e-8:
                    raise violation("parallel-differs", f"L @ inverse differs from I by {e:.3g}")

        else:
            lt = self.lterm(sc, rng, n)
            drop = None
            LL = L
            pm = perm
            if sc["drop"] and sc["kind"] == "trace":
                drop = np.sort(rng.choice(n, size=sc["drop"], replace=False))
                LL = lower(rng, n - len(drop), sc["blk"], sc["arrow"])
                pm = rng.permutation(n - len(drop))
            Pm = ms.compute_eigen_perm(pm)

            def job(n_c):
                return lambda: ms.compute_B(LL, Pm, lt, n_c, drop)

            # independent reference
            keep = np.arange(n) if drop is None else np.setdiff1d(np.arange(n), drop)
            if lt.clust_series is None:
                cols = np.arange(n) if drop is None else keep
                B = solve(LL, (Pm @ lt.D_J_emb[:, cols][keep, :]))
                want = np.array([B.power(2).sum()])
            else:
                lw = up = 0.0
                nk = lt.S_J.shape[0]
                rank = int(lt.rank / lt.rep_sj)
                for s, wgt in zip(lt.clust_series, lt.clust_weights):
                    a = lt.start_index + s * nk
                    q = solve(LL, Pm @ lt.D_J_emb[:, a : a + rank]).power(2).sum()
                    lw += np.sum(np.asarray(wgt) * q)
                    up += len(wgt) * q
                want = np.array([lw, up])

            def judge(res):
                cm.require_close("parallel-differs", "trace", np.atleast_1d(res), want, 1e-8, 1e-10)

        judge(ctx.quiet("serial", job(1)))
        given = [L] if sc["kind"] == "linv" else [LL, Pm, lt, drop]
        before = fp(given)
        w = ctx.world("par", n_cpu=sc["n_cpu"])
        self.call(w, job(sc["n_c"]), judge)
        ctx.probe("parallel tasks", w.counts.get("task", 0))
        counts = dict(w.counts)
        if sc.get("faults"):
            w = ctx.world("faulty", faults=resolve_faults(sc["faults"], counts), n_cpu=sc["n_cpu"])
            self.call(w, job(sc["n_c"]), judge)
            w = ctx.world("again", n_cpu=sc["n_cpu"])
            self.call(w, job(sc["n_c"]), judge)
        d = changed(before, fp(given))
        if d:
            raise violation("input-modified", "changed " + ", ".join(d[:4]))
        ctx.check(3)

    def call(self, w, fn, judge):
        o = w.run_clients([("a", fn)])[0]
        if o.exc is not None:
            if isinstance(o.exc, core.Violation):
                raise o.exc
            if not w.fault_counts:
                raise violation("parallel-fails", cm.exc_text(o.exc))
        else:
            judge(o.value)
        o.exc = None
        if w.live_pools > 0:
            raise violation("workers-leaked", f"{w.live_pools} worker pools survive the call")
        if w.shm:
            raise violation("memory-leaked", f"{len(w.shm)} shared memory segments survive the call")

    def run_fit(self, sc, ctx):
        """A model large enough for the parallel inverse inside a fit."""
        import pandas as pd
        from mssm.models import GAMM, Formula, Gaussian, lhs
        from mssm.src.python import terms as T
        from .c01 import observe, compare

        rng = np.random.default_rng(sc["seed"])
        lv = max(4000, sc["n"])
        s = np.concatenate([np.arange(lv), rng.integers(0, lv, lv)])
        x = rng.uniform(size=len(s)).round(4)
        u = rng.normal(size=lv)
        df = pd.DataFrame(
            dict(y=np.sin(5 * x) + u[s] + rng.normal(size=len(s)) * 0.5, x=x, s=[f"l{j:05d}" for j in s])
        )
        nd = df.iloc[:20]

        def job(n_c):
            def go():
                fo = Formula(
                    lhs("y"), [T.i(), T.f(["x"], nk=6), T.ri("s")], data=df, print_warn=False
                )
                m = GAMM(fo, Gaussian())
                m.fit(progress_bar=False, n_cores=n_c, max_outer=1, method="Chol")
                o = observe(m, nd)
                o.pop("coefficient covariance", None)
                o["inverse factor"] = scp.sparse.csc_array(m.lvi)
                return o

            return go

        want = ctx.quiet("serial", job(1))
        li = want.pop("inverse factor")
        hs = want.pop("hessian")

        def judge(o):
            l2 = o.pop("inverse factor")
            h2 = o.pop("hessian")
            for a, b, t in ((l2, li, "inverse factor"), (h2, hs, "hessian")):
                d = abs(a - b).max()
                if not d < 1e-8 * max(1.0, abs(b).max()):
                    raise violation("parallel-differs", f"{t} by {d:.3g}")
            compare("parallel-differs", o, want)

        w = ctx.world("par", n_cpu=sc["n_cpu"])
        self.call(w, job(sc["n_c"]), judge)
        ctx.probe("parallel tasks in fits", w.counts.get("task", 0))
        ctx.check(3)

    def shrink(self, sc):
        out = []
        for k, v in [("arrow", 0), ("blk", 1), ("off", 0), ("drop", 0), ("n_c", 2), ("n", 4000), ("reps", 45)]:
            if sc[k] != v:
                out.append(dict(sc, **{k: v}))
        return out


PROP = P()
