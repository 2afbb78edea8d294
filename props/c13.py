"""C13: answers of a model depend on the model and the arguments, not on what happened before."""

import copy
import pickle

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation
from . import common as cm
from . import md
from . import ops
from . import uf
from .c09 import churn
from .fp import fp, changed

KINDS = ["gauss", "gauss", "gamma", "poisson", "binomial", "scaledt", "gaumlss", "gammals", "mulnom", "gsmm", "prophaz",
         "prophaz", "multigauss", "user", "user-grad", "user-extra"]
TERMS = ["x", "x+ri", "x+w", "by", "ri", "x+z", "fs"]
# What a family keeps to answer faster is not part of its state
CACHES = ("._PropHaz__hs", "._PropHaz__qs", "._PropHaz__avs", "._PropHaz__pred_for")


def gen_spec(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    s = md.gen(rng, ["gsmm" if kind.startswith("user") else kind], 45, 90, shared=True)
    s["kind"] = kind
    s["outer"] = rng.choice([1, 2, 3])
    if kind in md.GAMMS and rng.random() < 0.15:
        s["rho"] = 0.4
    if s.get("ser") and rng.random() < 0.5:
        s["rho"] = 0.4
    if kind == "prophaz" and s["terms"] == "by":
        s["terms"] = "x"
    return s


def frame(s):
    return md.frame(dict(s, kind="gsmm") if s["kind"].startswith("user") else s)


def fit(s, m, **kw):
    if s["kind"].startswith("user"):
        s = dict(s, kind="gsmm", qefs=True)
    return md.fit(s, m, **kw)


def gen_history(rng):
    """Two models, what they share, and a list of things done to them."""
    a = gen_spec(rng)
    share = rng.choice(["nothing", "frame", "frame", "family", "terms"])
    if share == "nothing":
        b = gen_spec(rng)
        if rng.random() < 0.5:
            # Other data of the same size
            b.update(n=a["n"], nk=a["nk"], terms=a["terms"] if b["kind"] != "prophaz" or a["terms"] != "by" else "x")
    else:
        b = dict(a, terms=rng.choice(TERMS), terms2=rng.choice(["i", "x"]), outer=rng.choice([1, 2, 3]), nk=rng.choice([4, 5, 6]))
        if b["kind"] == "prophaz" and b["terms"] == "by":
            b["terms"] = "ri"
        if share == "family" and a["kind"] == "scaledt":
            share = "frame"  # estimated parameters of a family are kept by the family
        if share == "terms":
            b.update(terms=a["terms"], terms2=a["terms2"], nk=a["nk"], seed=rng.randrange(10**6), n=rng.choice([a["n"], rng.randint(45, 90)]))
    todo = []
    for _ in range(rng.randint(3, 7)):
        j = rng.choice([0, 0, 1])
        o = ops.gen(rng, [a, b][j]["kind"])
        o["m"] = j
        todo.append(o)
    if rng.random() < 0.5:
        # The same question twice, with something in between
        todo.append(dict(todo[0]))
    for _ in range(rng.randint(0, 3)):
        todo.insert(rng.randint(0, len(todo)), dict(ev=rng.choice(["churn", "refit", "third", "copy", "pickle", "dropped"]), m=rng.choice([0, 1]),
                                                    num=rng.randrange(1000)))
    return dict(models=[a, b], share=share, todo=todo, third=gen_spec(rng))


class Pair:
    """The two models of a history, as a user script would set them up."""

    def __init__(self, sc):
        self.sc = sc
        self.sp = sc["models"]
        a, b = self.sp
        self.df = [frame(a)]
        share = sc["share"]
        self.df.append(frame(b) if share in ("nothing", "terms") else self.df[0])
        self.ms = [None, None]
        self.held = {}

    def build(self, j):
        """Unfitted model j; what is shared is taken from the other one where that exists."""
        s, share = self.sp[j], self.sc["share"]
        if share == "terms":
            if not hasattr(self, "terms"):
                self.terms = {}
            return self._with_terms(s, j)
        m = uf.build(s, df=self.df[j])
        if share == "family" and self.ms[1 - j] is not None:
            m.family = self.ms[1 - j].family
        return m

    def _with_terms(self, s, j):
        old = md.terms

        def terms(spec, nk, icept=True):
            k = (spec, nk, icept)
            if k not in self.terms:
                self.terms[k] = old(spec, nk, icept)
            return self.terms[k]

        md.terms = terms
        try:
            return uf.build(s, df=self.df[j])
        finally:
            md.terms = old

    def fit(self, j, **kw):
        m = self.build(j)
        fit(self.sp[j], m, **kw)
        self.ms[j] = m

    def usable(self):
        for m in self.ms:
            if m.coef is None or not np.all(np.isfinite(m.coef)) or m.lvi is None or len(m.overall_penalties) == 0:
                return False
        return True

    def ask(self, o):
        a = ops.Args(self.sp[o["m"]], o, self.df[o["m"]])
        if o["num"] % 3:
            # The user keeps one frame per size, and fills in other values
            for n in ("dat", "dat2"):
                d = getattr(a, n)
                h = self.held.setdefault((o["m"], n, len(d)), d)
                for c in d.columns:
                    h[c] = d[c].values.copy()
                setattr(a, n, h)
        other = self.ms[1 - o["m"]] if type(self.ms[0]) is type(self.ms[1]) else None
        return ops.flat(ops.call(self.sp[o["m"]], self.ms[o["m"]], o, a, other))

    def event(self, e):
        j, ev = e["m"], e["ev"]
        if ev == "churn":
            churn(e["num"])
        elif ev == "refit":
            # Same settings, so the same model
            th = getattr(self.ms[j].family, "theta", None)
            if th is None:
                fit(self.sp[j], self.ms[j])
        elif ev == "third":
            t = self.sc["third"]
            fit(t, uf.build(t))
        elif ev == "copy":
            self.ms[j] = copy.deepcopy(self.ms[j])
        elif ev == "pickle":
            if not self.sp[j]["kind"].startswith("user"):
                self.ms[j] = pickle.loads(pickle.dumps(self.ms[j]))
        elif ev == "dropped":
            # A set up model that is never fitted
            self.build(j)


def answer(f):
    try:
        return ("ok", f())
    except core.Violation:
        raise
    except Exception as e:
        return ("raise", f"{type(e).__name__}: {str(e)[:200]}")


def alone(sc, ctx, first):
    """Answer to every question from models that were asked nothing else, in processes of their own."""

    def go():
        p = Pair(sc)
        for j in first:
            p.fit(j)
        if not p.usable():
            return None
        out = []
        for o in sc["todo"]:
            out.append(None if "ev" in o else ctx.apart(lambda: answer(lambda: p.ask(o))))
        return out

    try:
        r = ctx.apart(lambda: ctx.quiet("ref", go))
    except core.Violation:
        raise
    except Exception as e:
        raise Skip("fit fails: " + cm.exc_text(e))
    if r is None:
        raise Skip("fit not usable")
    return r


def same(got, want):
    if got[0] != want[0]:
        return f"{got[0]} {got[1] if got[0] == 'raise' else ''} instead of {want[0]} {want[1] if want[0] == 'raise' else ''}"
    if got[0] == "raise":
        return None
    return ops.differ(got[1], want[1], 1e-8)


class P(Prop):
    id = "C13"

    def gen(self, rng, k, tier):
        return gen_history(rng)

    def run(self, sc, ctx):
        want = alone(sc, ctx, (0, 1))
        want2 = None
        if sc["share"] == "family":
            # Which of the two is set up first does not matter
            want2 = alone(sc, ctx, (1, 0))
        w = ctx.world("live")

        def live():
            p = Pair(sc)
            first = [0, 1] if w.dec.choose(2) == 0 else [1, 0]
            todo = [[i for i, o in enumerate(sc["todo"]) if o["m"] == j] for j in (0, 1)]
            for j in first:
                churn(j + 5)
                p.fit(j)
            # Two sessions, one per model, interleaved in any order
            while todo[0] or todo[1]:
                c = [j for j in (0, 1) if todo[j]]
                j = c[w.dec.choose(len(c))] if len(c) > 1 else c[0]
                i = todo[j].pop(0)
                o = sc["todo"][i]
                w.note("ask", str(o.get("op", o.get("ev"))))
                if "ev" in o:
                    p.event(o)
                    ctx.probe("event " + o["ev"])
                    continue
                got = answer(lambda: p.ask(o))
                d = same(got, want[i])
                if d is not None and want2 is not None:
                    d = same(got, want2[i])
                if d is not None:
                    raise violation("history-dependent", f"{o['op']} on {sc['models'][o['m']]['kind']} (question {i}): {d}")
                ctx.check(1)
                ctx.probe("op " + o["op"])
                ctx.probe("answers" if got[0] == "ok" else "refusals")

        w.run_client(live)
        self.seeds(sc, ctx)

    def seeds(self, sc, ctx):
        """Draws for two seeds differ."""

        def go():
            p = Pair(sc)
            p.fit(0)
            m = p.ms[0]
            kw = {} if sc["models"][0]["kind"] in ops.GAMMS else dict(par=0)
            a = m.sample_post(6, seed=3, **kw)
            b = m.sample_post(6, seed=4, **kw)
            return np.array_equal(a, b)

        if sc["todo"][0].get("num", 1) % 5 == 0 and ctx.quiet("seeds", go):
            raise violation("seed-ignored", "posterior samples for two seeds are the same")

    def shrink(self, sc):
        out = []
        for i in range(len(sc["todo"])):
            if len(sc["todo"]) > 1:
                out.append(dict(sc, todo=sc["todo"][:i] + sc["todo"][i + 1 :]))
        if sc["share"] != "nothing":
            out.append(dict(sc, share="nothing"))
        for j in (0, 1):
            m = sc["models"][j]
            for k, v in [("kind", "gauss"), ("terms", "x"), ("terms2", "i"), ("na", 0), ("n", 45), ("outer", 1)]:
                if m.get(k) != v:
                    mm = dict(m, **{k: v})
                    if k == "kind":
                        mm["method"] = "QR"
                    ms = list(sc["models"])
                    ms[j] = mm
                    if k == "kind" and sc["share"] != "nothing":
                        continue
                    out.append(dict(sc, models=ms))
        return out


PROP = P()
