"""C15: values that are not finite, from a family's functions, never end up in a fitted model."""

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation
from . import common as cm
from . import ops
from .c13 import Pair, gen_spec
from .c16 import Options, do_fit, gen_settings

KINDS = ["gaumlss", "gammals", "mulnom", "gsmm", "gsmm", "prophaz", "multigauss", "user",
         "user-grad", "user-extra"]
VALS = dict(nan=np.nan, ninf=-np.inf, pinf=np.inf)


def where(s, a):
    """The point at which a log-likelihood is evaluated."""
    if s["kind"] in ops.GS:
        # linear predictors: coefficients themselves depend on the parameterisation
        coef, cs, _, Xs = a[:4]
        c = np.split(np.array(coef, dtype=float).reshape(-1, 1), cs)
        return np.concatenate([(Xs[j] @ c[j] if j < len(Xs) else c[j]).flatten() for j in range(len(c))])
    return np.concatenate([np.array(v, dtype=float).flatten() for v in a[1:] if isinstance(v, np.ndarray)])


class Seam:
    """Wraps a function of a family: counts, and replaces results."""

    def __init__(self, s, fam, name, at=(), val=None, centre=None, radius=None):
        self.__dict__.update(s=s, fam=fam, name=name, at=set(at), val=val, centre=centre, radius=radius)
        self.n, self.fired, self.first, self.far = 0, 0, None, 0.0

    def __enter__(self):
        f = getattr(self.fam, self.name)

        def g(*a, **k):
            r = f(*a, **k)
            n = self.n
            self.n += 1
            if self.name == "llk":
                p = where(self.s, a)
                if self.first is None:
                    self.first = p
                if self.centre is not None and p.shape == self.centre.shape:
                    d = float(np.max(np.abs(p - self.centre)))
                    if not d <= self.radius:
                        self.fired += 1
                        return self.val
            if n in self.at:
                self.fired += 1
                return self.val if np.ndim(r) == 0 else np.asarray(r) * self.val
            return r

        self.fam.__dict__[self.name] = g
        return self

    def __exit__(self, *a):
        self.fam.__dict__.pop(self.name, None)
        return False


class P(Prop):
    id = "C15"

    def gen(self, rng, k, tier):
        kind = rng.choice(KINDS)
        s = gen_spec(rng, kind)
        o = gen_settings(rng, kind)
        o["max_outer"] = rng.choice([3, 8, 15])
        o.pop("max_inner", None)
        gs = kind in ops.GS
        mode = rng.choice(["transient", "transient", "domain"])
        fn = "llk"
        if mode == "transient" and gs:
            fn = rng.choice(["llk", "llk", "gradient"])
        return dict(model=s, set=o, mode=mode, fn=fn, val=rng.choice(sorted(VALS)),
                    at=[round(rng.random(), 4) for _ in range(rng.choice([1, 1, 2, 4]))], factor=rng.choice([1.001, 1.2, 2.0]),
                    burst=rng.choice([1, 1, 2, 5, 33, 34, 40, 70]), early=rng.random() < 0.3)

    def base(self, sc):
        s = sc["model"]
        m = Pair(dict(models=[s, s], share="nothing")).build(0)
        with Seam(s, m.family, sc["fn"]) as a:
            do_fit(s, m, sc["set"], Options(), [])
        n = a.n
        m = Pair(dict(models=[s, s], share="nothing")).build(0)
        last = []
        with Seam(s, m.family, "llk") as b:
            do_fit(s, m, sc["set"], Options(), [])
            n0 = b.first
            b.first = None
            m.get_llk(False)
            last = b.first
        return dict(n=n, first=n0, last=last, llk=float(np.squeeze(m.get_llk(False))), ok=bool(np.all(np.isfinite(m.coef))))

    def run(self, sc, ctx):
        s = sc["model"]
        try:
            b = ctx.apart(lambda: ctx.quiet("ref", lambda: self.base(sc)))
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("fit fails: " + cm.exc_text(e))
        if not b["ok"] or not np.isfinite(b["llk"]) or b["n"] == 0:
            raise Skip("fit not usable")
        kw = dict(val=VALS[sc["val"]])
        if sc["mode"] == "domain":
            if b["first"] is None or b["last"] is None or b["first"].shape != b["last"].shape:
                raise Skip("no domain")
            r = float(np.max(np.abs(b["first"] - b["last"])))
            kw.update(centre=b["last"], radius=sc["factor"] * r + 1e-9)
        else:
            at = set()
            for f in sc["at"]:
                f = f * 0.1 if sc["early"] else f
                at.update(int(f * b["n"]) + j for j in range(sc["burst"]))
            # the first evaluation is the starting point, which has to be sound
            kw["at"] = {x for x in at if x > 0}
        w = ctx.world("live")

        def live():
            m = Pair(dict(models=[s, s], share="nothing")).build(0)
            with Seam(s, m.family, sc["fn"], **kw) as a:
                try:
                    do_fit(s, m, sc["set"], Options(), [])
                except core.Violation:
                    raise
                except Exception as e:
                    return a.fired, cm.exc_text(e)
                fired = a.fired
                if sc["mode"] == "domain":
                    l = float(np.squeeze(m.get_llk(False)))
                    if not np.isfinite(l):
                        raise violation("outside-domain", f"{s['kind']}: the log-likelihood at the final estimate is {l}")
            self.sound(sc, m, b)
            return fired, None

        fired, exc = w.run_client(live)
        if fired:
            k = f"{sc['fn']}:{sc['val']}:{sc['mode']}"
            w.fault_counts[k] = w.fault_counts.get(k, 0) + fired
        ctx.probe("refused" if exc is not None else "fitted")
        if not fired:
            raise Skip("never reached")
        ctx.check(1)

    def sound(self, sc, m, b):
        s = sc["model"]
        lam = np.array([p.lam for p in m.overall_penalties], dtype=float)
        for name, v in [("coefficients", m.coef), ("smoothing parameters", lam), ("edf", np.array(m.edf, dtype=float)),
                        ("term edf", np.array(m.term_edf, dtype=float)), ("scale", np.array(getattr(m, "scale", 1.0) or 1.0, dtype=float))]:
            if v is None or not np.all(np.isfinite(v)):
                raise violation("not-finite", f"{s['kind']}: {name} of the fitted model are not finite")
        l = float(np.squeeze(m.get_llk(False)))
        if not np.isfinite(l):
            raise violation("not-finite", f"{s['kind']}: log-likelihood of the fitted model is {l}")

    def shrink(self, sc):
        out = []
        for i in range(len(sc["at"])):
            if len(sc["at"]) > 1:
                out.append(dict(sc, at=sc["at"][:i] + sc["at"][i + 1 :]))
        if sc["burst"] > 1:
            out.append(dict(sc, burst=1))
        for k in list(sc["set"]):
            if k not in ("max_outer", "method"):
                out.append(dict(sc, set={a: b for a, b in sc["set"].items() if a != k}))
        for k, v in [("terms", "x"), ("terms2", "i"), ("na", 0), ("n", 45)]:
            if sc["model"].get(k) != v:
                out.append(dict(sc, model=dict(sc["model"], **{k: v})))
        return out


PROP = P()
