"""Fitted models of every class from a JSON description."""

import numpy as np
import pandas as pd

KINDS = ["gauss", "gauss", "gamma", "poisson", "binomial", "scaledt", "gaumlss", "gammals", "mulnom", "gsmm", "prophaz", "multigauss"]


GAMMS = ("gauss", "gamma", "poisson", "binomial", "scaledt")


def gen(rng, kinds=KINDS, n_lo=60, n_hi=140, shared=False):
    kind = rng.choice(kinds)
    s = dict(
        kind=kind,
        seed=rng.randrange(10**6),
        n=rng.randint(n_lo, n_hi),
        nk=rng.choice([4, 5, 6]),
        terms=rng.choice(["x", "x", "x+ri", "x+w", "by", "ri", "x+z", "fs", "shared" if shared else "x+w"]),
        terms2=rng.choice(["i", "i", "x"]),
        outer=rng.choice([1, 2, 3, 4]),
        method=rng.choice(["QR", "Chol"]) if kind in ("gauss", "gamma", "poisson", "binomial", "scaledt") else rng.choice(["QR/Chol", "Chol", "LU/Chol"]),
        na=rng.choice([0, 0, 2]),
        qefs=rng.random() < 0.5,
    )
    if kind in GAMMS and rng.random() < 0.3:
        s["offset"] = rng.choice(["number", "array"])
    if kind in GAMMS and rng.random() < 0.4:
        s["ser"] = True
    return s


def frame(s):
    rng = np.random.default_rng(s["seed"])
    n = s["n"]
    x, w, z = rng.uniform(0, 1, n), rng.uniform(-1, 2, n), rng.normal(size=n)
    f = rng.permutation(np.arange(n) % 2)
    g = rng.permutation(np.arange(n) % 4)
    u = rng.normal(size=4) * 0.4
    mu = np.sin(5 * x) + 0.3 * z + 0.4 * f * x + u[g] + 0.2 * np.cos(2 * w)
    k = s["kind"]
    y2 = None
    if k in ("gauss", "gsmm"):
        y = mu + rng.normal(size=n) * 0.5
    elif k == "gaumlss":
        y = mu + rng.normal(size=n) * np.exp(-0.7 + 0.5 * x)
    elif k == "scaledt":
        y = mu + rng.standard_t(5, size=n) * 0.4
    elif k in ("gamma", "gammals"):
        y = rng.gamma(4.0, np.exp(0.3 * mu) / 4.0) + 1e-3
    elif k == "poisson":
        y = rng.poisson(np.exp(0.4 * mu + 0.5)).astype(float)
    elif k == "binomial":
        y = (rng.uniform(size=n) < 1 / (1 + np.exp(-mu))).astype(float)
    elif k == "mulnom":
        p = np.exp(np.stack([0.3 * mu, 0.4 - 0.3 * mu, 0 * mu]))
        p = p / p.sum(0)
        y = np.array([rng.choice(3, p=p[:, j]) for j in range(n)]).astype(float)
    elif k == "prophaz":
        y = np.ceil(rng.exponential(np.exp(-0.5 * mu)) * 12) + 0.0
        y2 = (rng.uniform(size=n) < 0.8).astype(float)
    elif k == "multigauss":
        e = rng.normal(size=(n, 2)) @ np.array([[0.5, 0.2], [0, 0.4]])
        y, y2 = mu + e[:, 0], np.cos(3 * x) + e[:, 1]
    else:
        raise KeyError(k)
    df = pd.DataFrame(dict(y=np.round(y, 6), x=x.round(5), w=w.round(5), z=z.round(5),
                           f=np.array(["a", "b"])[f], g=np.array(["s1", "s2", "s3", "s4"])[g]))
    if s.get("ser"):
        # Time series of different lengths
        df["ser"] = np.array(["a", "b", "c", "d"])[np.searchsorted(np.sort(rng.choice(np.arange(5, n - 5), 3, replace=False)), np.arange(n), side="right")]
    if y2 is not None:
        df["y2"] = y2.astype(np.int64) if k == "prophaz" else np.round(y2, 6)
    if k == "prophaz":
        df = df.sort_values("y", ascending=False, kind="stable").reset_index(drop=True)
    elif s["na"] and k not in ("mulnom", "multigauss"):
        df.loc[rng.choice(n, size=s["na"], replace=False), "y"] = np.nan
    return df


def terms(spec, nk, icept=True):
    from mssm.src.python import terms as T

    out = [T.i()] if icept else []
    if spec == "i":
        return out
    if spec == "x":
        out += [T.f(["x"], nk=nk)]
    elif spec == "x+ri":
        out += [T.f(["x"], nk=nk), T.ri("g")]
    elif spec == "x+w":
        out += [T.f(["x"], nk=nk), T.f(["w"], nk=4)]
    elif spec == "shared":
        out += [T.f(["x"], nk=nk, id=1), T.f(["w"], nk=nk, id=1)]
    elif spec == "by":
        out += [T.l(["f"]), T.f(["x"], nk=nk, by="f")]
    elif spec == "ri":
        out += [T.l(["z"]), T.ri("g")]
    elif spec == "x+z":
        out += [T.l(["z"]), T.f(["x"], nk=nk)]
    elif spec == "fs":
        out += [T.f(["x"], nk=nk), T.fs(["w"], rf="g", nk=4)]
    else:
        raise KeyError(spec)
    return out


def formulas(s, df):
    from mssm.models import Formula, lhs

    k = s["kind"]
    mk = lambda y, sp, ic=True: Formula(lhs(y), terms(sp, s["nk"], ic), data=df, print_warn=False, series_id="ser" if s.get("ser") else None)  # noqa: E731
    if k in ("gauss", "gamma", "poisson", "binomial", "scaledt"):
        return [mk("y", s["terms"])]
    if k in ("gaumlss", "gammals", "gsmm"):
        return [mk("y", s["terms"]), mk("y", s["terms2"])]
    if k == "mulnom":
        return [mk("y", "x"), mk("y", s["terms2"])]
    if k == "prophaz":
        sp = s["terms"] if s["terms"] != "by" else "x"
        return [mk("y2", sp, False)]
    if k == "multigauss":
        return [mk("y", "x"), mk("y2", "x")]
    raise KeyError(k)


def build(s, df=None):
    """Unfitted model."""
    import mssm.models as M
    from mssm.src.python import exp_fam as E

    df = frame(s) if df is None else df
    fo = formulas(s, df)
    k = s["kind"]
    if k == "gauss":
        return M.GAMM(fo[0], E.Gaussian())
    if k == "gamma":
        return M.GAMM(fo[0], E.Gamma())
    if k == "poisson":
        return M.GAMM(fo[0], E.Poisson())
    if k == "binomial":
        return M.GAMM(fo[0], E.Binomial())
    if k == "scaledt":
        return M.GAMM(fo[0], E.ScaledT())
    if k == "gaumlss":
        return M.GAMMLSS(fo, E.GAUMLSS([E.Identity(), E.LOG()]))
    if k == "gammals":
        return M.GAMMLSS(fo, E.GAMMALS([E.LOG(), E.LOGb(-0.0001)]))
    if k == "mulnom":
        return M.GAMMLSS(fo, E.MULNOMLSS(2))
    if k == "gsmm":
        from mssm.src.python.utils import GAMLSSGSMMFamily

        return M.GSMM(fo, GAMLSSGSMMFamily(2, E.GAUMLSS([E.Identity(), E.LOG()])))
    if k == "prophaz":
        ut = np.unique(df["y"].values)[::-1]
        r = np.array([int(np.where(ut == v)[0][0]) for v in df["y"].values])
        fam = E.PropHaz(ut, r)
        return M.GSMM(fo, fam)
    if k == "multigauss":
        return M.GSMM(fo, E.MultiGauss(2, [E.Identity(), E.Identity()]))
    raise KeyError(k)


def fit(s, m, **kw):
    k = s["kind"]
    a = dict(progress_bar=False, n_cores=1, max_outer=s["outer"], method=s["method"])
    if k in GAMMS:
        if s.get("offset") == "number":
            a["offset"] = 0.3
        elif s.get("offset"):
            a["offset"] = 0.3 * np.sin(np.arange(len(m.formulas[0].y_flat))).reshape(-1, 1)
        if s.get("rho"):
            a["rho"] = s["rho"]
    elif k in ("gsmm", "prophaz", "multigauss"):
        a.update(max_inner=40)
        if s["qefs"] or k == "multigauss":
            a["method"] = "qEFS"
    else:
        a.update(max_inner=40)
    a.update(kw)
    m.fit(**a)
    return m
