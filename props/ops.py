"""What one can ask a fitted model: a catalogue of operations that only read, from JSON descriptions."""

import contextlib
import copy
import io

import numpy as np
import scipy as scp

from . import md

GAMMS = ("gauss", "gamma", "poisson", "binomial", "scaledt", "invgauss")
LSS = ("gaumlss", "gammals", "mulnom")
GS = ("gsmm", "prophaz", "multigauss", "user", "user-grad", "user-extra")

NAMES = [
    "predict", "predict", "predict_ci", "predict_whole", "predict_diff", "diff_whole", "sample_post", "sample_post",
    "llk", "reml", "resid", "pars", "mmat", "ys", "print_smooth", "print_par", "p_values", "sample_MVN",
    "estimateVp", "correct_VB", "sample_mssm", "rvs", "compute_reml", "compare_CDL", "terms_of", "summary",
]
HAZ = ["survival", "survival", "hazard", "resid"]


def gen(rng, kind):
    o = dict(
        op=rng.choice(NAMES),
        par=rng.choice([0, 0, 1]),
        use=rng.choice([None, None, [0], [1], [0, 1], [1, 0], [2, 0, 1]]),
        seed=rng.choice([0, 1, 5, 77]),
        n=rng.choice([5, 20]),
        rows=rng.choice([1, 4, 9]),
        flag=rng.random() < 0.5,
        flag2=rng.random() < 0.5,
        num=rng.randrange(1000),
    )
    if kind == "prophaz" and rng.random() < 0.4:
        o["op"] = rng.choice(HAZ)
    if o["op"] in ("estimateVp", "correct_VB", "sample_mssm") and rng.random() < 0.4:
        o["op"] = rng.choice(["predict_whole", "sample_post", "resid"])
    return o


def npar(s):
    if s["kind"] in GAMMS or s["kind"] in ("prophaz", "user-extra"):
        return 1
    return 2


def new_data(df, o, shift=0):
    d = df.dropna().iloc[: 40]
    idx = (np.arange(o["rows"]) * 7 + o["num"] + shift) % len(d)
    return d.iloc[idx].reset_index(drop=True)


class Args:
    """Everything an operation is given, made anew for every call, to see what it does to it."""

    def __init__(self, s, o, df):
        self.par = o["par"] % npar(s)
        self.use = None if o["use"] is None else list(o["use"])
        self.dat = new_data(df, o)
        self.dat2 = new_data(df, o, 3)
        self.z = None
        self.held = []

    def hold(self, name, v):
        """Remember an argument and what it held when it was handed over."""
        self.held.append((name, v, copy.deepcopy(v)))
        return v


def args_modified(s, m, o, a):
    """Names of arguments that hold something else than when they were handed over."""
    from .fp import fp, changed

    return ", ".join(n for n, v, was in a.held if changed(fp(was), fp(v)))


def call(s, m, o, a, other=None):
    """Run one operation; the result is a list of arrays, strings and None."""
    from mssm.src.python import utils as U

    k, op, seed = s["kind"], o["op"], o["seed"]
    gam = k in GAMMS
    par = {} if gam else dict(par=a.par)
    nt = len(m.formulas[a.par].terms)
    use = None if a.use is None else [u for u in a.use if u < nt] or [0]
    a.use = use
    if use is not None:
        a.hold("use_terms", use)
    a.hold("n_dat", a.dat)
    a.hold("n_dat2", a.dat2)
    if op.startswith("predict") and op != "predict_diff":
        ci, wh = op != "predict", op == "predict_whole"
        p, X, b = m.predict(use, a.dat, ci=ci, whole_interval=wh, n_ps=o["n"] * 5, seed=seed, alpha=0.1 if o["flag"] else 0.05, **par)
        return [p, X, b]
    if op in ("predict_diff", "diff_whole"):
        return list(m.predict_diff(a.dat, a.dat2, use, whole_interval=op == "diff_whole", n_ps=o["n"] * 5, seed=seed, **par))
    if op == "sample_post":
        up = None
        if o["flag2"]:
            nc = m.formulas[a.par].n_coef
            up = sorted({int(v) % nc for v in (o["num"], o["num"] // 7, 0)})
        a.z = up
        a.hold("use_post", up)
        return [m.sample_post(o["n"], up, deviations=o["flag"], seed=seed, **par)]
    if op == "llk":
        if gam and o["flag2"]:
            return [m.get_llk(o["flag"], ext_scale=0.5 + o["num"] % 3)]
        return [m.get_llk(o["flag"])]
    if op == "reml":
        return [m.get_reml()]
    if op == "resid":
        if gam:
            if m.rho is not None and o["flag2"]:
                return [m.get_resid("ar1")]
            return [m.get_resid("Deviance" if o["flag"] else "Pearson")]
        if k == "mulnom":
            return [m.get_resid(seed=seed)]
        if k == "prophaz":
            return [m.get_resid(resid_type="Martingale" if o["flag"] else "Deviance")]
        return [m.get_resid()]
    if op == "pars":
        return [m.get_pars(), m.get_pars(par=a.par) if not gam else None]
    if op == "mmat":
        if gam:
            return [m.get_mmat(use_terms=use)]
        if k in GS and o["flag"]:
            return list(m.get_mmat(use_terms=use, drop_NA=o["flag2"]))
        return [m.get_mmat(use_terms=use, par=a.par)] if k not in LSS else [m.get_mmat(par=a.par)]
    if op == "terms_of":
        # What the formulas say about themselves
        f = m.formulas[a.par]
        return [str(f.get_lhs().variable), f.n_coef, f.unpenalized_coef, "|".join(map(str, f.coef_names)), list(f.coef_per_term),
                repr(sorted(f.get_var_map().items())), repr(sorted((k, str(v)) for k, v in f.get_var_types().items())),
                repr(sorted((k, v if v is None else float(v)) for k, v in f.get_var_mins().items())),
                repr(sorted((k, v if v is None else float(v)) for k, v in f.get_var_maxs().items())),
                repr(sorted((k, [str(x) for x in v]) for k, v in f.get_factor_levels().items()))]
    if op == "summary":
        return [m.coef, m.edf, m.penalty, [p.lam for p in m.overall_penalties], m.lvi, m.hessian, list(m.preds), list(m.mus)]
    if op == "ys":
        if k in GS and o["flag"]:
            return [m.get_ys(drop_NA=o["flag2"], par=a.par)]
        return list(m.get_ys()) if not gam else [m.get_ys()]
    if op in ("print_smooth", "print_par"):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if op == "print_par":
                if o["flag"]:
                    U.print_parametric_terms(m, **par)
                else:
                    m.print_parametric_terms()
            elif o["flag"]:
                m.print_smooth_terms(p_values=o["flag2"]) if not o["flag2"] else m.print_smooth_terms(p_values=True, edf1=False)
            else:
                U.print_smooth_terms(m, **par)
        return [buf.getvalue()]
    if op == "p_values":
        ps, Trs = U.approx_smooth_p_values(m, n_sel=500, edf1=False, force_approx=o["flag"], seed=seed, **par)
        return [np.array(ps, dtype=float), np.array(Trs, dtype=float)]
    if op == "sample_MVN":
        a.z = a.hold("mu", np.array(m.coef, dtype=float).flatten())
        return [U.sample_MVN(o["n"], a.z, 0.5, P=None, L=None, LI=m.lvi, use=[0, 1] if o["flag"] else None, seed=seed)]
    if op == "estimateVp":
        r = U.estimateVp(m, nR=5, grid_type="JJJ1" if o["flag"] else "JJJ2", n_c=1, seed=seed, method="Chol")
        return [r[0], r[4]]
    if op == "correct_VB":
        r = U.correct_VB(m, nR=3, grid_type=["JJJ1", "JJJ2", "JJJ3"][o["num"] % 3], n_c=1, seed=seed, method="Chol",
                         recompute_H=o["flag"], use_importance_weights=o["flag2"])
        return [r[0], r[4], r[5], r[6], r[7]]
    if op == "sample_mssm":
        from mssm.src.python.mcmc import sample_mssm

        r = sample_mssm(m, n_iter=4, n_steps=2, M_adapt=2, n_chains=2, max_j=2, max_j_adapt=2, auto_converge=False,
                        parallelize_chains=False, progress_bar=False, seed=seed, sample_rho=o["flag"])
        return [r.lps, r.coefs, r.lscales, r.thetas, r.rhos]
    if op == "rvs":
        fam = m.family
        mus = m.mus if not isinstance(m.mus, np.ndarray) else [m.mus]
        if k == "gsmm":
            fam = None
        if not hasattr(fam, "rvs") or k not in LSS:
            return []
        a.z = a.hold("mus", [np.array(v, dtype=float).copy() for v in mus])
        return [fam.rvs(*a.z, size=3, seed=seed)]
    if op in ("survival", "hazard"):
        # Estimates for the coefficients of the model, or for others
        c = m.coef * (1.0 if o["flag"] else 0.5 + 0.1 * (o["num"] % 3))
        Xs = [m.get_mmat(par=0)]
        d = m.get_ys()[0]
        if o["flag2"]:
            d = np.where(np.arange(len(d)).reshape(d.shape) % 5 == o["num"] % 5, 1 - d, d)
        a.hold("coef, delta, Xs", [c, d, Xs])
        if op == "hazard":
            return [m.family.get_baseline_hazard(c, d, Xs)]
        t = m.family.ut[o["num"] % len(m.family.ut)]
        return list(m.family.get_survival(c, Xs, d, t, Xs[0][: o["rows"], :].toarray(), (m.lvi.T @ m.lvi).toarray()))
    if op == "compute_reml":
        pen = m.overall_penalties
        if len(pen) == 0:
            return []
        # get_reml twice, and the log-likelihood in between
        return [m.get_reml(), m.get_llk(True), m.get_reml()]
    if op == "compare_CDL":
        from mssm.src.python.compare import compare_CDL

        if other is None:
            return []
        if o["flag"] and o["num"] % 2:
            r = compare_CDL(m, other, correct_V=True, correct_t1=False, perform_GLRT=o["flag2"], grid="JJJ1", nR=3, seed=seed)
        else:
            r = compare_CDL(m, other, correct_V=False, correct_t1=False, perform_GLRT=o["flag2"])
        return [v for _, v in sorted(r.items())]
    raise KeyError(op)


def flat(v):
    """Comparable form of a result."""
    out = []
    for x in v:
        if x is None or isinstance(x, str):
            out.append(x)
        elif scp.sparse.issparse(x):
            out.append(x.toarray())
        elif isinstance(x, (list, tuple)):
            out.extend(flat(x))
        else:
            out.append(np.array(x, dtype=float, copy=True))
    return out


def differ(a, b, tol=1e-9):
    """None, or what differs between two results."""
    if len(a) != len(b):
        return f"{len(a)} parts vs {len(b)}"
    for j, (x, y) in enumerate(zip(a, b)):
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            if type(x) is not type(y) or (x is not None and x != y):
                return f"part {j}: {str(x)[:60]!r} vs {str(y)[:60]!r}"
            continue
        if x.shape != y.shape:
            return f"part {j}: shape {x.shape} vs {y.shape}"
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy) or not np.array_equal(x[~fx], y[~fy], equal_nan=True):
            return f"part {j}: finite in one, not in the other"
        if np.any(fy):
            sc = max(1e-3, float(np.max(np.abs(y[fy]))))
            d = float(np.max(np.abs(x[fy] - y[fy]))) / sc
            if d > tol:
                return f"part {j}: relative difference {d:.3g}"
    return None
