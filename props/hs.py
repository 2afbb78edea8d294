"""Hidden semi-Markov scenarios: families, observations and matrices from a JSON description."""

import numpy as np
import scipy as scp


def gen(rng, big=False):
    kind = rng.choice(["multi", "gauss", "gauss", "mixed", "hmp", "hmp"])
    ns = rng.choice([1, 2, 3, 4, 5, 7] if not big else [3, 5, 9])
    hmp = kind == "hmp"
    sc = dict(
        kind=kind,
        seed=rng.randrange(10**6),
        n_series=ns,
        n_S=rng.choice([3, 5]) if hmp else rng.choice([2, 3, 3]),
        M=rng.choice([1, 2, 3]),
        lens=[rng.randint(26, 44) if hmp else rng.randint(6, 30) for _ in range(ns)],
        D=rng.choice([6, 9, 14]),
        tv=(not hmp) and rng.random() < 0.3,
        fixed=rng.choice(["one", "list"]) if hmp else rng.choice([None, None, "one", "list", "list"]),
        swf=True if hmp else rng.random() < 0.6,
        ewl=True if hmp else rng.random() < 0.3,
        eil=True if hmp else rng.random() < 0.15,
        rho=rng.choice([None, 0.4]) if hmp else None,
        hmp_fam=rng.choice(["Gaussian", "Exponential"]),
        shared=rng.random() < 0.4,
        shared_m=rng.random() < 0.5,
        reuse=rng.random() < 0.6,
        arg_sid=rng.random() < 0.3,
        tid_none=rng.random() < 0.5,
        cores=rng.choice([2, 2, 3, 4, 8]),
        n_cpu=rng.choice([1, 2, 8]),
    )
    if kind == "multi":
        sc["M"] = rng.choice([2, 3])
        sc["shared"] = rng.random() < 0.3
    return sc


class Build:
    """Everything an HSMMFamily call needs, for all series or for one of them."""

    def __init__(self, sc):
        import mssm.models as mm
        from mssm.models import GAUMLSS, GAMMALS, MultiGauss, Identity, LOG, LOGb

        self.sc = sc
        rng = np.random.default_rng(sc["seed"])
        n_S, M = sc["n_S"], sc["M"]
        lens = np.array(sc["lens"][: sc["n_series"]])
        N, nser = int(lens.sum()), len(lens)
        self.sid = np.concatenate([[0], np.cumsum(lens)[:-1]]).astype(int)
        self.tid = self.sid if sc["tv"] else np.arange(nser)
        self.lens = lens
        hmp = sc["kind"] == "hmp"
        ewidth = 3
        self.template = np.array([0.5, 1.0, 0.5])
        # D bounds a state's duration; left-to-right chains need room for the whole series
        self.D = int(lens.max()) if hmp else sc["D"]

        y = np.zeros((N, M))
        for m in range(M):
            lev = rng.normal(size=n_S) * 2
            pos = 0
            for L in lens:
                st, t = int(rng.integers(0, n_S)), 0
                while t < L:
                    d = int(rng.integers(2, 6))
                    y[pos + t : pos + min(L, t + d), m] = lev[st]
                    st = (st + 1) % n_S
                    t += d
                pos += L
        y += rng.normal(size=y.shape) * 0.6
        if hmp:
            y = rng.normal(size=y.shape)
        self.pos = sc["kind"] == "mixed"
        if self.pos:
            y = np.abs(y) + 0.05
        y = y.round(4)

        def obsX(k=1):
            X = np.ones((N, 1 + k))
            for j in range(k):
                X[:, 1 + j] = rng.uniform(-1, 1, N)
            return scp.sparse.csc_array(X)

        def durX(k=1):
            n = N if sc["tv"] else nser
            X = np.ones((n, 1 + k))
            for j in range(k):
                X[:, 1 + j] = rng.uniform(-1, 1, n)
            return scp.sparse.csc_array(X)

        ys, Xs, ncoef, coef, bmi, level = [], [], [], [], [], []

        def add(yv, X, c0, per):
            """per: 'obs' or 'dur' (row level)"""
            c = np.array(c0 + list(rng.normal(size=X.shape[1] - len(c0)) * 0.1))
            same = [j for j, q in enumerate(level) if q == per and Xs[j] is not None]
            if sc["reuse"] and same and per == "obs" and Xs[same[0]].shape == X.shape:
                Xs.append(None)
                bmi.append(same[0])
            else:
                Xs.append(X)
                bmi.append(len(bmi))
            ys.append(yv)
            ncoef.append(X.shape[1])
            coef.extend(c)
            level.append(per)

        yc = lambda m: y[:, [m]].copy()  # noqa: E731
        shared = [0] if sc["shared"] else []
        links, pars, extra = [], 0, 0
        if shared:
            for m in range(1 if sc["shared_m"] else M):
                X = scp.sparse.csc_array(rng.uniform(-1, 1, size=(N, 1)))
                Xs.append(X)
                bmi.append(len(bmi))
                ys.append(yc(m))
                ncoef.append(1)
                coef.append(0.05)
                level.append("sh")
        obs_fams, thetas = [], []
        for j in range(n_S):
            obs_fams.append([])
            if sc["kind"] == "multi":
                fam = MultiGauss(M, [Identity() for _ in range(M)])
                obs_fams[-1].append(fam)
                extra += fam.extra_coef
                for m in range(M):
                    add(yc(m), obsX(), [float(rng.normal())], "obs")
                links.extend(fam.links)
                pars += M
                R = np.triu(rng.normal(size=(M, M)) * 0.1)
                for m in range(M):
                    R[m, m] = -0.2 + 0.1 * rng.normal()
                thetas.extend(R[np.triu_indices(M)])
                continue
            for m in range(M):
                if hmp:
                    obs_fams[-1].append(None)
                    if j % 2 == 1:
                        add(yc(m), obsX(0), [float(rng.normal())], "obs")
                        links.append(Identity())
                        pars += 1
                elif sc["kind"] == "mixed" and (j + m) % 2:
                    fam = GAMMALS([LOG(), LOG()])
                    obs_fams[-1].append(fam)
                    add(yc(m), obsX(), [float(0.3 * rng.normal())], "obs")
                    ys.append(None)
                    Xs.append(Xs[-1] if Xs[-1] is not None else None)
                    bmi.append(len(bmi) if Xs[-1] is not None else bmi[-1])
                    ncoef.append(2)
                    coef.extend([-0.3, 0.05])
                    level.append("obs2")
                    links.extend(fam.links)
                    pars += 2
                else:
                    fam = GAUMLSS([Identity(), LOG()])
                    obs_fams[-1].append(fam)
                    add(yc(m), obsX(), [float(rng.normal() * 1.5 + (1.5 if self.pos else 0))], "obs")
                    ys.append(None)
                    Xs.append(Xs[-1] if Xs[-1] is not None else None)
                    bmi.append(len(bmi) if Xs[-1] is not None else bmi[-1])
                    ncoef.append(2)
                    coef.extend([0.0, 0.05])
                    level.append("obs2")
                    links.extend(fam.links)
                    pars += 2
        # A missing response stands for the first one; give every family its own instead
        last = None
        for j in range(len(ys)):
            if ys[j] is None:
                ys[j] = last
            last = ys[j]
        d_fams = []
        dy = np.ones((N if sc["tv"] else nser, 1))
        for j in range(n_S * (1 if sc["swf"] else 2)):
            if hmp and j % 2 == 1:
                d_fams.append(None)
                continue
            fam = GAMMALS(links=[LOG(), LOGb(-0.0001)])
            d_fams.append(fam)
            add(dy.copy(), durX(), [float(1.0 + 0.3 * rng.normal() + (1.0 if hmp else 0))], "dur")
            add(dy.copy(), durX(0), [-1.0], "dur")
            links.extend(fam.links)
            pars += 2
        self.T = self.pi = None

        def rT():
            T = rng.uniform(0.1, 1, size=(n_S, n_S))
            np.fill_diagonal(T, 0)
            if hmp:
                return np.diag(np.ones(n_S - 1), 1)
            return T / T.sum(axis=1, keepdims=True)

        def rpi():
            if hmp:
                p = np.zeros(n_S)
                p[0] = 1
                return p
            p = rng.uniform(0.1, 1, size=n_S)
            return p / p.sum()

        if sc["fixed"] is None:
            if n_S > 2:
                for j in range(n_S):
                    for _ in range(n_S - 2):
                        add(dy.copy(), durX(), [float(0.3 * rng.normal())], "dur")
                        pars += 1
            for _ in range(n_S - 1):
                add(dy.copy(), durX(), [float(0.3 * rng.normal())], "dur")
                pars += 1
        else:

            def rep(mat):
                # with a time-varying process a transition matrix has a third dimension: time
                return mat

            if sc["fixed"] == "one":
                self.T, self.pi = rT(), rpi()
                if sc["tv"]:
                    self.Tlens = None
            else:
                self.T = [rT() for _ in range(nser)]
                self.pi = [rpi() for _ in range(nser)]
            if sc["tv"]:
                # one matrix per time point
                self.T = [
                    np.stack([rT() for _ in range(int(L))], axis=2).copy(order="F") for L in lens
                ]
                self.pi = [rpi() for _ in range(nser)]
        coef.extend(thetas)
        ncoef.append(extra)
        split = list(np.cumsum(ncoef[:-1]))
        if not thetas:
            split = split[:-1]
        self.split = [int(s) for s in split]
        self.coef = np.array(coef, dtype=float).reshape(-1, 1)
        self.ys, self.Xs, self.bmi, self.level = ys, Xs, bmi, level
        self.links, self.pars = links, pars
        self.obs_fams, self.d_fams = obs_fams, d_fams
        self.shared = shared
        self.Lrhoi = None
        self.rho = sc["rho"]
        if sc["rho"]:
            self.Lrhoi = self.lrhoi(lens)
        self.hmp = hmp

    def lrhoi(self, lens):
        rho = self.sc["rho"]
        n = int(np.sum(lens))
        d0 = np.tile(1 / np.sqrt(1 - rho**2), n)
        d1 = np.tile(-rho / np.sqrt(1 - rho**2), n - 1)
        st = np.concatenate([[0], np.cumsum(lens)[:-1]]).astype(int)
        d0[st] = 1
        d1[st[1:] - 1] = 0
        return scp.sparse.diags_array([d0, d1], format="csr", offsets=[0, 1])

    def family(self, n_cores, series=None, own_sid=True):
        from mssm.src.python.hsmm import HSMMFamily

        sc = self.sc
        T, pi, L = self.T, self.pi, self.Lrhoi
        sid, tid = self.sid, self.tid
        if series is not None:
            if isinstance(T, list):
                T, pi = [T[series]], [pi[series]]
            sid = np.array([0])
            tid = np.array([0])
            if L is not None:
                L = self.lrhoi([self.lens[series]])
        kw = {}
        if self.hmp:
            kw = dict(scale=1.0, event_template=self.template.copy(), hmp_fam=sc["hmp_fam"], Lrhoi=L)
        if not own_sid:
            sid = np.array([0])
            tid = np.array([0])
        if sc["tv"] and sc["tid_none"]:
            tid = None
        cp = lambda a: None if a is None else ([x.copy() for x in a] if isinstance(a, list) else a.copy())  # noqa: E731
        return HSMMFamily(
            self.pars,
            list(self.links),
            sc["n_S"],
            obs_fams=self.obs_fams,
            d_fams=self.d_fams,
            sid=sid.copy(),
            tid=None if tid is None else tid.copy(),
            D=self.D,
            M=sc["M"],
            starts_with_first=sc["swf"],
            ends_with_last=sc["ewl"],
            ends_in_last=sc["eil"],
            T=cp(T),
            pi=cp(pi),
            n_cores=n_cores,
            build_mat_idx=list(self.bmi),
            shared_pars=list(self.shared),
            shared_m=sc["shared_m"],
            tvdtpi=sc["tv"],
            **kw,
        )

    def data(self, series=None):
        if series is None:
            return list(self.ys), list(self.Xs)
        a = int(self.sid[series])
        b = a + int(self.lens[series])
        ys, Xs = [], []
        for y, X, lv in zip(self.ys, self.Xs, self.level):
            if lv == "dur" and not self.sc["tv"]:
                sl = slice(series, series + 1)
            else:
                sl = slice(a, b)
            ys.append(None if y is None else y[sl])
            Xs.append(None if X is None else X[sl, :])
        return ys, Xs

    def kwargs(self, series=None):
        if series is None and self.sc["arg_sid"]:
            return dict(sid=self.sid.copy(), tid=self.tid.copy())
        return {}

    def own(self):
        return not self.sc["arg_sid"]


def shrink(sc):
    out = []
    if sc["n_series"] > 1:
        out.append(dict(sc, n_series=sc["n_series"] - 1))
    for k, v in [
        ("shared", False), ("tv", False), ("M", 1 if sc["kind"] != "multi" else 2), ("reuse", False),
        ("arg_sid", False), ("rho", None), ("cores", 2), ("fixed", "list"), ("fixed", "one"),
    ]:
        if sc.get(k) != v:
            out.append(dict(sc, **{k: v}))
    if any(L > 10 for L in sc["lens"]) and sc["kind"] != "hmp":
        out.append(dict(sc, lens=[max(6, L // 2) for L in sc["lens"]]))
    return out
