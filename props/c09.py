"""C09: posterior samples do not depend on where and when the chains run."""

import random

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation
from . import common as cm
from . import md
from .fp import fp, changed

KINDS = ["gauss", "gauss", "gamma", "poisson", "binomial", "scaledt", "gaumlss", "gammals", "gsmm", "multigauss", "prophaz"]


def gen_call(rng, par=True):
    a = dict(
        n_iter=rng.choice([4, 6, 9, 12]),
        n_steps=rng.choice([1, 2, 3, 4, 7, 20]),
        M_adapt=rng.choice([0, 3, 4, 6]),
        n_chains=rng.choice([2, 2, 3, 4]),
        delta=rng.choice([0.6, 0.8]),
        max_j=rng.choice([2, 3]),
        max_j_adapt=2,
        make_proper=rng.random() < 0.6,
        auto_converge=rng.random() < 0.3,
        sample_rho=rng.random() < 0.35,
        init_unconditional=rng.random() < 0.4,
        convergence_type=rng.choice([0, 0, 1]),
        seed=rng.choice([0, 1, 7, 123]),
    )
    if rng.random() < 0.4:
        a.update(lambda_0=rng.choice([1e-4, 1e-2]), scale_cov_phi_theta=rng.choice([0.5, 1.0]),
                 scale_cov_rho=rng.choice([0.5, 1.0]), phi_theta_lambda_0=rng.choice([None, 1e-3]),
                 gamma=rng.choice([0.05, 0.1]), t0=rng.choice([5, 10]))
    if a["auto_converge"]:
        # criteria that are soon met
        a.update(n_iter=rng.choice([40, 60]), n_steps=rng.choice([10, 16]), min_iter=rng.choice([3, 10, 20]),
                 max_rhat=rng.choice([1.5, 5.0, 1e6]), min_ess=rng.choice([0.1, 1]), n_chains=2, max_j=2)
    return a


def churn(n):
    np.random.seed(n)
    np.random.random(n % 13)
    random.seed(n)


def sample(m, call, parallel, log=None, stop=None):
    """One call of the sampler; ``log`` collects what the callback saw."""
    from mssm.src.python.mcmc import sample_mssm

    def cb(it, r):
        if log is not None:
            log.append((int(it), fields(r)))
        if stop is not None and it >= stop[0]:
            raise stop[1]

    r = sample_mssm(m, parallelize_chains=parallel, progress_bar=False, callback=cb, **call)
    return fields(r)


def fields(r):
    return {
        k: None if getattr(r, k) is None else np.array(getattr(r, k), dtype=float, copy=True)
        for k in ("lps", "coefs", "lscales", "thetas", "rhos")
    }


def agree(sig, got, want, what=""):
    for k, b in want.items():
        a = got[k]
        if a is None or b is None:
            if (a is None) != (b is None):
                raise violation(sig, f"{what}{k}: {'missing' if a is None else 'unexpected'}")
            continue
        cm.require_close(sig, f"{what}{k}", a, b, 1e-7, 1e-9)


class P(Prop):
    id = "C09"

    def gen(self, rng, k, tier):
        sc = dict(
            model=md.gen(rng, KINDS, 40, 90),
            call=gen_call(rng),
            n_cpu=rng.choice([1, 2, 8]),
            churn=rng.randrange(1000),
        )
        sc["model"]["outer"] = rng.choice([1, 2])
        if rng.random() < 0.3:
            sc["before"] = dict(n_iter=3, auto_converge=False, M_adapt=rng.choice([0, 2]), seed=rng.choice([3, 8]), n_chains=rng.choice([1, 2, 5]))
        if tier == "thorough" and rng.random() < 0.3:
            sc["call"].update(n_iter=40, M_adapt=20, n_steps=rng.choice([5, 10, 30]))
        return sc

    def model(self, sc, ctx):
        try:
            m = ctx.quiet("fit", lambda: md.fit(sc["model"], md.build(sc["model"])))
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("fit fails: " + cm.exc_text(e))
        if m.coef is None or not np.all(np.isfinite(m.coef)) or m.lvi is None:
            raise Skip("fit not usable")
        return m

    def reference(self, sc, ctx, m):
        log = []
        try:
            want = ctx.quiet("ref", lambda: sample(m, sc["call"], False, log))
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("one process fails: " + cm.exc_text(e))
        return want, log

    def check_log(self, sc, sig, want, log):
        c = sc["call"]
        its = [i for i, _ in log]
        if any(b <= a for a, b in zip(its, its[1:])):
            raise violation(sig, f"the callback saw iterations {its}")
        n = want["coefs"].shape[1]
        full = n == c["n_iter"]
        if not c["auto_converge"] and (not full or its[-1] != c["n_iter"]):
            raise violation(sig, f"{n} samples returned, callback saw {its}, {c['n_iter']} iterations requested")
        for it, r in log:
            for k, v in r.items():
                if v is None:
                    if want[k] is not None:
                        raise violation(sig, f"callback at {it}: {k} missing")
                    continue
                if v.shape[1] != it:
                    raise violation(sig, f"callback at {it}: {k} holds {v.shape[1]} samples")
                if full and not np.array_equal(v, want[k][:, :it, :], equal_nan=True):
                    raise violation(sig, f"callback at {it}: {k} is not the start of the returned samples")
        # Converged: the second half of what was sampled until then
        if not full and len(log) > 0:
            steps = max(2, c["n_steps"])
            tot = min(its[-1] + steps, c["n_iter"])
            if n != tot - tot // 2:
                raise violation(sig, f"stopped after {tot} iterations but returned {n} samples")
            last = log[-1][1]["coefs"]
            lo = tot // 2
            if lo < its[-1] and not np.array_equal(last[:, lo:, :], want["coefs"][:, : its[-1] - lo, :], equal_nan=True):
                raise violation(sig, "the returned samples are not the second half of the sampled ones")

    def run(self, sc, ctx):
        m = self.model(sc, ctx)
        before = fp(m)
        want, wlog = self.reference(sc, ctx, m)
        d = changed(before, fp(m))
        if d:
            raise violation("model-modified", "sampling in one process changed " + ", ".join(d[:4]))
        self.check_log(sc, "callback", want, wlog)
        nch = want["coefs"].shape[0]
        if np.all(np.isfinite(want["coefs"])):
            for a in range(nch):
                for b in range(a + 1, nch):
                    if np.array_equal(want["coefs"][a], want["coefs"][b]) and np.ptp(want["coefs"][a], axis=0).max() > 0:
                        raise violation("chains-coincide", f"chains {a} and {b} hold the same samples")
        for tag, par in (("par1", True), ("par2", True), ("ser2", False)):
            log = []

            def go():
                churn(sc["churn"] + len(tag))
                if sc.get("before"):
                    # another call on the same model first
                    sample(m, dict(sc["call"], **sc["before"]), par and tag == "par1")
                return sample(m, sc["call"], par, log)

            w = ctx.world(tag, n_cpu=sc["n_cpu"])
            try:
                got = w.run_client(go)
            except core.Violation:
                raise
            except Exception as e:
                raise violation(f"{tag[:3]}-fails", f"one process succeeds, this raises {cm.exc_text(e)}")
            agree("parallel-differs" if par else "history-dependent", got, want)
            if [i for i, _ in log] != [i for i, _ in wlog]:
                raise violation("callback-differs", f"iterations {[i for i, _ in log]} vs {[i for i, _ in wlog]}")
            for (_, a), (it, b) in zip(log, wlog):
                agree("callback-differs", a, b, f"callback at {it}, ")
            d = changed(before, fp(m))
            if d:
                raise violation("model-modified", "sampling changed " + ", ".join(d[:4]))
            if par:
                ctx.probe("chain processes", w.counts.get("chain", 0))
                if len(w.shm) > 0:
                    raise violation("shm-leaked", f"{len(w.shm)} segments survive the call")
            ctx.check(5)

    def shrink(self, sc):
        out = []
        c = sc["call"]
        for k, v in [("n_chains", 2), ("M_adapt", 0), ("sample_rho", False), ("make_proper", False),
                     ("init_unconditional", False), ("auto_converge", False), ("convergence_type", 0),
                     ("n_steps", 4), ("n_iter", 4)]:
            if c.get(k) != v:
                out.append(dict(sc, call=dict(c, **{k: v})))
        m = sc["model"]
        for k, v in [("kind", "gauss"), ("terms", "x"), ("terms2", "i"), ("na", 0), ("outer", 1), ("n", 40)]:
            if m.get(k) != v:
                mm = dict(m, **{k: v})
                if k == "kind":
                    mm["method"] = "QR"
                out.append(dict(sc, model=mm))
        return out


PROP = P()
