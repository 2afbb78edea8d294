"""User-written general smooth families, and GSMMs over them."""

import numpy as np

from . import md


def classes():
    from mssm.src.python.exp_fam import GSMMFamily

    class UserLlk(GSMMFamily):
        """Gaussian location-scale; only the log-likelihood is given."""

        def __init__(self, links):
            super().__init__(2, links)

        def split(self, coef, cs, ys, Xs):
            c = np.split(coef, cs)
            return ys[0], Xs[0] @ c[0], Xs[1] @ c[1]

        def llk(self, coef, coef_split_idx, ys, Xs):
            y, e, ls = self.split(coef, coef_split_idx, ys, Xs)
            return float(np.sum(-ls - 0.5 * np.log(2 * np.pi) - 0.5 * ((y - e) / np.exp(ls)) ** 2))

        def get_resid(self, coef, coef_split_idx, ys, Xs):
            y, e, ls = self.split(coef, coef_split_idx, ys, Xs)
            return (y - e) / np.exp(ls)

    class UserGrad(UserLlk):
        def gradient(self, coef, coef_split_idx, ys, Xs):
            y, e, ls = self.split(coef, coef_split_idx, ys, Xs)
            r = (y - e) / np.exp(ls)
            return np.concatenate([Xs[0].T @ (r / np.exp(ls)), Xs[1].T @ (r**2 - 1)]).reshape(-1, 1)

    class UserExtra(GSMMFamily):
        """Gaussian with one extra coefficient (log standard deviation)."""

        def __init__(self, links):
            super().__init__(1, links)
            self.extra_coef = 1

        def llk(self, coef, coef_split_idx, ys, Xs):
            c = np.split(coef, coef_split_idx)
            ls = c[-1][0, 0]
            r = (ys[0] - Xs[0] @ c[0]) / np.exp(ls)
            return float(np.sum(-ls - 0.5 * np.log(2 * np.pi) - 0.5 * r**2))

        def gradient(self, coef, coef_split_idx, ys, Xs):
            c = np.split(coef, coef_split_idx)
            ls = c[-1][0, 0]
            r = (ys[0] - Xs[0] @ c[0]) / np.exp(ls)
            return np.concatenate([Xs[0].T @ (r / np.exp(ls)), [[float(np.sum(r**2 - 1))]]]).reshape(-1, 1)

        def get_resid(self, coef, coef_split_idx, ys, Xs):
            c = np.split(coef, coef_split_idx)
            return (ys[0] - Xs[0] @ c[0]) / np.exp(c[-1][0, 0])

    return UserLlk, UserGrad, UserExtra


def build(s, bump=0.0, df=None):
    """Unfitted model; user kinds in addition to those of md."""
    if df is None:
        df = md.frame(dict(s, kind="gsmm") if s["kind"].startswith("user") else s)
    if bump:
        df["y" if s["kind"] != "prophaz" else "x"] *= 1 + bump * np.random.default_rng(5).normal(size=len(df))
    if not s["kind"].startswith("user"):
        return md.build(s, df)
    import mssm.models as M
    from mssm.src.python import exp_fam as E

    L, G, X = classes()
    fo = md.formulas(dict(s, kind="gsmm"), df)
    if s["kind"] == "user":
        return M.GSMM(fo, L([E.Identity(), E.LOG()]))
    if s["kind"] == "user-grad":
        return M.GSMM(fo, G([E.Identity(), E.LOG()]))
    return M.GSMM(fo[:1], X([E.Identity()]))


def parts(s, m, rng):
    """ys, Xs, a coefficient vector and its split, as a fit would hand them to the family."""
    from mssm.src.python.formula import build_penalties

    for f in m.formulas:
        build_penalties(f)
    n = [f.n_coef for f in m.formulas]
    ys = m.get_ys()
    Xs = [m.get_mmat(par=j) for j in range(len(m.formulas))]
    if m.family.extra_coef is not None:
        n = n + [m.family.extra_coef]
    coef = rng.normal(size=(sum(n), 1)) * 0.2
    return ys, Xs, coef, [int(v) for v in np.cumsum(n)[:-1]]
