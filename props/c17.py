"""C17: threads that work on models of their own, or ask the same model, do not disturb each other."""

from vsim import core
from vsim.harness import Prop, Skip, violation
from vsim.threads import Threads
from . import common as cm
from . import ops
from . import hs
from .c13 import KINDS, TERMS, Pair, answer, fit, frame, gen_spec, same
from .c16 import outcome
from . import uf


def gen_asks(rng, kind, n):
    out = []
    for _ in range(n):
        o = ops.gen(rng, kind)
        if o["op"] == "compare_CDL":
            o["op"] = "p_values"
        if o["op"] in ("print_smooth", "print_par"):
            o["op"] = "sample_post"  # standard output belongs to all threads
        o["m"] = 0
        out.append(o)
    return out


class Work:
    """What one thread does, and what it gets."""

    def __init__(self, sc, t, shared=None):
        self.sc, self.t = sc, t
        self.s = t["model"]
        self.shared = shared

    def __call__(self):
        out = []
        p = Pair(dict(models=[self.s, self.s], share="nothing"))
        if self.shared is not None and "model" in self.shared:
            p.ms = [self.shared["model"], None]
        else:
            if self.shared is not None and "df" in self.shared:
                p.df = [self.shared["df"], self.shared["df"]]
            out.append(answer(lambda: self.fit(p)))
            if out[-1][0] == "raise":
                return out
        for o in self.t["asks"]:
            out.append(answer(lambda: p.ask(o)))
        if self.t.get("again") and not (self.shared and "model" in self.shared):
            out.append(answer(lambda: self.fit(p)))
        return out

    def fit(self, p):
        p.fit(0)
        return outcome(p.ms[0])


class P(Prop):
    id = "C17"

    def gen(self, rng, k, tier):
        mode = rng.choice(["own", "own", "frame", "same"])
        n = rng.choice([2, 2, 3])
        a = gen_spec(rng)
        if mode == "same" and a["kind"] == "scaledt":
            a = gen_spec(rng, "gamma")
        ts = []
        for i in range(n):
            s = dict(a)
            if mode == "own":
                s = gen_spec(rng, a["kind"] if rng.random() < 0.5 else None)
            elif mode == "frame":
                s["terms"] = rng.choice(TERMS)
                s["terms2"] = rng.choice(["i", "x"])
                s["nk"] = rng.choice([4, 5, 6])
                if s["kind"] == "prophaz" and s["terms"] == "by":
                    s["terms"] = "x+z"
            s["outer"] = rng.choice([1, 2, 3]) if mode != "same" else a["outer"]
            ts.append(dict(model=s, asks=gen_asks(rng, s["kind"], rng.randint(1, 3)), again=rng.random() < 0.3))
        return dict(mode=mode, threads=ts, mean=rng.choice([1, 5, 20, 100, 400, 2000]))

    def shared(self, sc):
        if sc["mode"] == "frame":
            return dict(df=frame(sc["threads"][0]["model"]))
        if sc["mode"] == "same":
            s = sc["threads"][0]["model"]
            return dict(model=fit(s, uf.build(s, df=frame(s))))
        return None

    def run(self, sc, ctx):
        def ref(t):
            try:
                sh = self.shared(sc)
            except Exception as e:
                return cm.exc_text(e)
            return Work(sc, t, sh)()

        want = [ctx.apart(lambda: ctx.quiet("ref", lambda: ref(t))) for t in sc["threads"]]
        if any(isinstance(x, str) for x in want):
            raise Skip("fit fails: " + [x for x in want if isinstance(x, str)][0])
        w = ctx.world("live")

        def live():
            sh = self.shared(sc)
            th = Threads(w, sc["mean"])
            out = th.run([Work(sc, t, sh) for t in sc["threads"]])
            return out, th.preempt

        out, n = w.run_client(live)
        ctx.probe("preemptions", n)
        for i, (st, got) in enumerate(out):
            if st == "exc":
                raise got
            t = sc["threads"][i]
            names = [o["op"] for o in t["asks"]]
            if not (sc["mode"] == "same"):
                names = ["fit"] + names
            if len(got) != len(want[i]):
                raise violation("thread-differs", f"thread {i}: {got[-1]}")
            for j, (x, y) in enumerate(zip(got, want[i])):
                d = same(x, y)
                if d is not None:
                    raise violation("thread-differs", f"thread {i} ({t['model']['kind']}, {sc['mode']}), {(names + ['fit'])[j]}: {d}")
                ctx.check(1)

    def shrink(self, sc):
        out = []
        ts = sc["threads"]
        if len(ts) > 2:
            for i in range(len(ts)):
                out.append(dict(sc, threads=ts[:i] + ts[i + 1 :]))
        for i, t in enumerate(ts):
            for j in range(len(t["asks"])):
                n = list(ts)
                n[i] = dict(t, asks=t["asks"][:j] + t["asks"][j + 1 :])
                out.append(dict(sc, threads=n))
            for k, v in [("terms", "x"), ("terms2", "i"), ("na", 0), ("n", 45), ("outer", 1)]:
                if t["model"].get(k) != v and sc["mode"] == "own":
                    n = list(ts)
                    n[i] = dict(t, model=dict(t["model"], **{k: v}))
                    out.append(dict(sc, threads=n))
        for v in (2000, 400):
            if sc["mean"] < v:
                out.append(dict(sc, mean=v))
        return out


PROP = P()
