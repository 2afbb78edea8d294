"""C06: with data in memory, results do not depend on how many processes do the work."""

import numpy as np
import pandas as pd
import scipy as scp

from vsim import core
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from .c01 import observe, compare

FAULTS = {
    "pool_create": ["emfile", "eagain", "mem"],
    "fork": ["eagain", "mem"],
    "task": ["mem", "late"],
    "result": ["mem"],
    "submit": ["mem"],
}


def series_data(d):
    """Time series with two overlapping event-related responses."""
    rng = np.random.default_rng(d["seed"])
    rows = []
    on1, on2 = [], []
    for s in range(d["n_series"]):
        L = int(rng.integers(25, 60))
        o1 = int(rng.integers(0, L // 3))
        o2 = int(rng.integers(L // 4, L // 2 + 1))
        on1.append(o1)
        on2.append(o2)
        t = np.arange(L) * 20
        r1 = np.where(t >= o1 * 20, np.exp(-(((t - o1 * 20) - 100) ** 2) / 5e3), 0)
        r2 = np.where(t >= o2 * 20, np.exp(-(((t - o2 * 20) - 80) ** 2) / 3e3), 0)
        fl = ["a", "b", "c"][int(rng.integers(0, 3))] if d["n_series"] > 4 else "a"
        y = 3 * r1 - 2 * r2 + rng.normal() * 0.5 + rng.normal(size=L) * 0.4
        rows.append(pd.DataFrame(dict(y=y.round(6), time=t, series=s, f=fl, x=rng.uniform(size=L).round(5))))
    df = pd.concat(rows, ignore_index=True)
    if d.get("na"):
        df.loc[rng.choice(len(df), size=d["na"], replace=False), "y"] = np.nan
    return df, np.array(on1), np.array(on2)


class P(Prop):
    id = "C06"

    def gen(self, rng, k, tier):
        kind = rng.choice(["rows", "rows", "rows", "irf", "irfpool", "clust"])
        fam = rng.choice(["Gaussian", "Gaussian", "Gamma", "Poisson", "Binomial"])
        sc = dict(
            kind=kind,
            family=fam,
            data=cm.gen_data(rng, 40, 180, family=fam),
            form=cm.gen_terms(rng, smooth=cm.SMOOTH_MEM),
            nc=rng.choice([2, 2, 3, 4, 5, 7, 10, 16]),
            n_cores=rng.choice([1, 2, 3, 10]),
            n_cpu=rng.choice([1, 2, 4, 8]),
            max_outer=rng.choice([1, 2, 3]),
            method=rng.choice(["QR", "QR", "Chol", "LU/Chol", "QR/Chol"]),
            offset=rng.choice([None, None, "scalar", "array"]),
            rho=rng.choice([None, None, None, 0.3]),
            sid=rng.random() < 0.4,
        )
        if kind == "rows" and rng.random() < 0.08:
            sc["data"]["n"] = rng.randint(12, 30)
            sc["nc"] = rng.choice([29, 31, 40])
        if kind != "rows":
            sc["data"] = dict(
                seed=rng.randrange(10**6), n_series=rng.choice([2, 3, 5, 9, 14]), na=rng.choice([0, 0, 3])
            )
            sc["by"] = rng.random() < 0.3
            sc["extra"] = rng.random() < 0.5
            sc["family"] = "Gaussian"
            sc["offset"] = None
            sc["rho"] = None
            sc["method"] = "Chol" if kind == "clust" else rng.choice(["QR", "Chol"])
        if rng.random() < 0.35:
            cls = rng.choice(sorted(FAULTS))
            sc["faults"] = [[cls, round(rng.random(), 4), rng.choice(FAULTS[cls]), None]]
        return sc

    def setup(self, sc):
        from mssm.models import GAMM, Formula, lhs
        import mssm.models as M
        from mssm.src.python import terms as T
        from mssm.src.python.formula import build_penalties, build_model_matrix

        if sc["kind"] == "rows":
            df = cm.make_data(sc["data"])
            sid = None
            if sc["sid"] or sc["rho"] is not None:
                df = df.sort_values(["s"], kind="stable").reset_index(drop=True)
                df["series"] = np.repeat(np.arange(len(df)), 7)[: len(df)]
                sid = "series"
            lev = cm.levels_of(df)
            newdat = df.dropna().iloc[:15].reset_index(drop=True)
            mk = lambda: cm.build_terms(sc["form"], lev)  # noqa: E731
        elif sc["kind"] == "clust":
            rng = np.random.default_rng(sc["data"]["seed"])
            ns = 30 + 10 * sc["data"]["n_series"]
            m = 14
            s = np.repeat(np.arange(ns), m)
            x = np.tile(np.arange(m) / m, ns)
            f = np.array(["a", "b"])[s % 2]
            y = np.sin(4 * x) + rng.normal(size=ns)[s] * 0.5 + rng.normal(size=len(s)) * 0.3
            df = pd.DataFrame(dict(y=y.round(6), x=x.round(5), s=[f"q{j:03d}" for j in s], f=f))
            df["series"] = s
            sid = "series"
            newdat = df.iloc[:15]

            def mk():
                return [
                    T.i(),
                    T.l(["f"]),
                    T.fs(
                        ["x"],
                        rf="s",
                        nk=5,
                        approx_deriv={
                            "no_disc": [],
                            "excl": [],
                            "split_by": ["f"] if sc["by"] else [],
                            "restarts": 2,
                            "seed": 7,
                        },
                    ),
                ]

        else:
            df, on1, on2 = series_data(sc["data"])
            sid = "series"
            newdat = df.copy()
            bk = [{"max_c": 400, "min_c": 0, "convolve": True}]
            by = "f" if sc["by"] and df["f"].nunique() > 1 else None

            def mk():
                t = [
                    T.irf(["time"], on1.copy(), nk=6, basis_kwargs=[dict(bk[0])], by=by),
                    T.irf(["time"], on2.copy(), nk=5, basis_kwargs=[dict(bk[0])]),
                ]
                if sc["extra"]:
                    t += [T.ri("series" if False else "f")] if df["f"].nunique() > 1 else []
                    t += [T.f(["x"], nk=5)]
                return t

        off = None
        if sc["offset"] == "scalar":
            off = 0.35
        elif sc["offset"] == "array":
            off = np.linspace(-0.2, 0.4, len(df)).reshape(-1, 1)

        def form(nc):
            return Formula(
                lhs("y"), mk(), data=df, file_loading_nc=nc, series_id=sid, print_warn=False,
                find_nested=sc["kind"] == "rows" and any(t[0] == "f" for t in sc["form"]["terms"]),
            )

        def fam():
            return {
                "Gaussian": lambda: M.Gaussian(),
                "Gamma": lambda: M.Gamma(M.LOG()),
                "Poisson": lambda: M.Poisson(),
                "Binomial": lambda: M.Binomial(),
            }[sc["family"]]()

        kw = dict(
            progress_bar=False, max_outer=sc["max_outer"], max_inner=50, method=sc["method"]
        )
        if sc["rho"] is not None and sc["family"] == "Gaussian":
            kw["rho"] = sc["rho"]

        def job(nc, n_cores, box=None, eps=0.0):
            def go():
                if sc["kind"] == "irfpool":
                    import multiprocess as mp

                    fo = form(1)
                    build_penalties(fo)
                    if nc == 1:
                        return {"model matrix": build_model_matrix(fo)}
                    with mp.Pool(processes=nc) as pool:
                        return {"model matrix": build_model_matrix(fo, pool=pool)}
                m = None if box is None else box.get("m")
                if m is None:
                    m = GAMM(form(nc), fam())
                    if box is not None:
                        box["m"] = m
                o = None if off is None else (off.copy() if isinstance(off, np.ndarray) else off)
                if eps:
                    o = (0 if o is None else o) + eps * np.random.default_rng(1).normal(size=(len(df), 1))
                m.fit(n_cores=n_cores, offset=o, **kw)
                res = observe(m, newdat)
                res["model matrix"] = m.get_mmat()
                return res

            return go

        return df, job

    def run(self, sc, ctx):
        df, job = self.setup(sc)
        df0 = df.copy(deep=True)
        try:
            want = ctx.quiet("ref", job(1, 1))
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("reference fails: " + cm.exc_text(e)[:90])

        def stable():
            """Problems whose solution rounding errors decide say nothing about the property."""
            try:
                compare("", ctx.quiet("ref2", job(1, 1, eps=1e-9)), want, 1e-6, 1e-7)
            except Exception:
                return False
            return True

        def judge(sig, res):
            cm.require_close(sig, "model matrix", res["model matrix"], want["model matrix"], 0, 1e-13)
            try:
                compare(sig, res, want, 1e-5, 1e-6)
            except core.Violation:
                if sc["kind"] == "irfpool" or stable():
                    raise
                ctx.probe("ill-conditioned")

        w = ctx.world("par", n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", job(sc["nc"], sc["n_cores"]))])[0]
        self.outcome(w, o, judge, "parallel-differs")
        counts = dict(w.counts)
        ctx.probe("parallel tasks", counts.get("task", 0))
        ctx.check(len(want))
        if sc.get("faults"):
            box = {}
            w = ctx.world("faulty", faults=resolve_faults(sc["faults"], counts), n_cpu=sc["n_cpu"])
            o = w.run_clients([("a", job(sc["nc"], sc["n_cores"], box))])[0]
            failed = o.exc is not None
            self.outcome(w, o, judge, "wrong-after-fault")
            w = ctx.world("again", n_cpu=sc["n_cpu"])
            o = w.run_clients([("a", job(sc["nc"], sc["n_cores"], box if failed else None))])[0]
            self.outcome(w, o, judge, "retry-differs")
            ctx.check(2 * len(want))
        if not df.equals(df0):
            raise violation("input-modified", "the data frame was modified")

    def outcome(self, w, o, judge, sig):
        if o.exc is not None:
            if isinstance(o.exc, core.Violation):
                raise o.exc
            if not w.fault_counts:
                raise violation(
                    sig.split("-")[0] + "-fails", "one process succeeds; " + cm.exc_text(o.exc)
                )
        else:
            judge(sig, o.value)
        o.exc = None
        if w.live_pools > 0:
            raise violation("workers-leaked", f"{w.live_pools} worker pools survive the call")

    def shrink(self, sc):
        out = []
        if sc["kind"] == "rows":
            for c in cm.shrink_terms(sc["form"]):
                out.append(dict(sc, form=c))
            if sc["data"]["n"] > 40:
                out.append(dict(sc, data=dict(sc["data"], n=max(30, sc["data"]["n"] // 2))))
            if sc["data"].get("na"):
                out.append(dict(sc, data=dict(sc["data"], na={})))
        for k, v in [("offset", None), ("rho", None), ("sid", False), ("n_cores", 1), ("nc", 2), ("max_outer", 1)]:
            if sc[k] != v:
                out.append(dict(sc, **{k: v}))
        return out


PROP = P()
