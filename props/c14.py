"""C14: asking a model changes neither the model nor anything it was given, also when interrupted."""

from vsim import core
from vsim.harness import Prop, Skip, violation
from vsim.intr import Lines
from . import common as cm
from . import ops
from .c13 import Pair, answer, gen_history, same
from .c13 import P as C13
from .fp import fp, changed


def state(p):
    """Public state of both models and their data."""
    return fp([p.ms, p.df, getattr(p, "terms", None)], depth=14)


class Bad:
    """Questions that cannot be answered."""

    NAMES = ["column", "term", "level", "type", "coef", "grid"]

    @staticmethod
    def ask(p, o, a):
        from mssm.src.python import utils as U

        s, m = p.sp[o["m"]], p.ms[o["m"]]
        par = {} if s["kind"] in ops.GAMMS else dict(par=a.par)
        b = o["bad"]
        if b == "column":
            a.dat = a.dat.drop(columns=["x", "z", "g"])
            return list(m.predict(None, a.dat, **par))
        if b == "term":
            a.use = [0, 99]
            return list(m.predict(a.use, a.dat, ci=True, **par))
        if b == "level":
            a.dat = a.dat.assign(g="unseen", f="unseen")
            return list(m.predict(None, a.dat, ci=True, **par))
        if b == "type":
            a.dat = a.dat.assign(x="text")
            return list(m.predict_diff(a.dat, a.dat2, None, **par))
        if b == "coef":
            a.z = [0, 10**6]
            return [m.sample_post(4, a.z, seed=1, **par)]
        return list(U.estimateVp(m, nR=3, grid_type="no such grid", seed=1))[:1]


class P(Prop):
    id = "C14"

    def gen(self, rng, k, tier):
        sc = gen_history(rng)
        sc["todo"] = [o for o in sc["todo"] if o.get("ev") in (None, "churn", "third", "dropped")]
        for o in sc["todo"]:
            if "ev" in o:
                continue
            r = rng.random()
            if r < 0.45:
                o["hit"] = [[round(rng.random(), 4), rng.choice(["interrupt", "interrupt", "interrupt", "mem"])] for _ in range(rng.choice([1, 1, 2, 3]))]
            elif r < 0.6:
                o["bad"] = rng.choice(Bad.NAMES)
        return sc

    def prepare(self, sc, ctx):
        """Answers and numbers of executed lines, from models asked nothing else."""

        def go():
            p = Pair(sc)
            for j in (0, 1):
                p.fit(j)
            if not p.usable():
                return None
            out = []
            for o in sc["todo"]:
                if "ev" in o or "bad" in o:
                    out.append(None)
                    continue

                def one():
                    with Lines(None) as ln:
                        r = answer(lambda: p.ask(o))
                    return r, ln.n

                out.append(ctx.apart(one))
            return out

        try:
            r = ctx.apart(lambda: ctx.quiet("ref", go))
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("fit fails: " + cm.exc_text(e))
        if r is None:
            raise Skip("fit not usable")
        return r

    def run(self, sc, ctx):
        want = self.prepare(sc, ctx)
        w = ctx.world("live")

        def live():
            p = Pair(sc)
            for j in (0, 1):
                p.fit(j)
            todo = [[i for i, o in enumerate(sc["todo"]) if o["m"] == j] for j in (0, 1)]
            before = state(p)

            def check(o, what):
                d = changed(before, state(p))
                if d:
                    kinds = sc["models"][0]["kind"] + "/" + sc["models"][1]["kind"]
                    raise violation("state-modified", f"{what} {o.get('op', o.get('ev'))} ({kinds}, asked model {o['m']}) changed {', '.join(d[:4])}")
                ctx.check(1)

            def given(o, a, what):
                d = ops.args_modified(p.sp[o["m"]], p.ms[o["m"]], o, a)
                if d:
                    raise violation("argument-modified", f"{what} {o['op']} changed {d}")

            def ask(o, a):
                other = p.ms[1 - o["m"]] if type(p.ms[0]) is type(p.ms[1]) else None
                return ops.flat(ops.call(p.sp[o["m"]], p.ms[o["m"]], o, a, other))

            while todo[0] or todo[1]:
                c = [j for j in (0, 1) if todo[j]]
                j = c[w.dec.choose(len(c))] if len(c) > 1 else c[0]
                i = todo[j].pop(0)
                o = sc["todo"][i]
                w.note("ask", str(o.get("op", o.get("ev"))))
                if "ev" in o:
                    p.event(o)
                    check(o, "")
                    continue
                a = ops.Args(p.sp[o["m"]], o, p.df[o["m"]])
                if "bad" in o:
                    keep = fp([a.dat2])
                    r = answer(lambda: [Bad.ask(p, o, a), 0][1])
                    ctx.probe(f"bad {o['bad']} {r[0]}")
                    w.note("bad", o["bad"])
                    check(dict(o, op="bad-" + o["bad"]), "refused")
                    if changed(keep, fp([a.dat2])):
                        raise violation("argument-modified", f"bad-{o['bad']} changed a data frame it was given")
                    continue
                ref, n = want[i]
                for fr, kind in o.get("hit", ()):
                    a = ops.Args(p.sp[o["m"]], o, p.df[o["m"]])
                    got = None
                    with Lines(w, int(fr * n), kind) as ln:
                        try:
                            got = answer(lambda: ask(o, a))
                        except KeyboardInterrupt:
                            pass
                    check(o, f"{kind} in {ln.where or '?'} during")
                    given(o, a, f"{kind} in {ln.where or '?'} during")
                    if ln.fired and kind == "interrupt" and got is not None:
                        d = same(got, ref)
                        if d is not None:
                            raise violation("interrupt-swallowed", f"{o['op']} interrupted in {ln.where} returned something else: {d}")
                    ctx.probe("interrupted" if ln.fired else "interrupt missed")
                a = ops.Args(p.sp[o["m"]], o, p.df[o["m"]])
                got = answer(lambda: ask(o, a))
                check(o, "")
                given(o, a, "")
                d = same(got, ref)
                if d is not None:
                    raise violation("answer-changed", f"{o['op']} on {p.sp[o['m']]['kind']} (question {i}): {d}")

        w.run_client(live)

    shrink = C13.shrink


PROP = P()
