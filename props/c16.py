"""C16: a fit depends on data, model and settings, not on earlier, failed or interrupted fits."""

import copy

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation
from vsim.intr import Lines
from . import common as cm
from . import ops
from . import uf
from .c09 import churn
from .c13 import Pair, fit, gen_history
from .fp import fp, changed

GS = ops.GS


def gen_settings(rng, kind):
    """Keyword arguments of fit."""
    o = dict(max_outer=rng.choice([1, 2, 3, 4]))
    if kind in ops.GAMMS:
        o.update(method=rng.choice(["QR", "Chol"]), extend_lambda=rng.random() < 0.3, control_lambda=rng.choice([0, 1, 2]),
                 exclude_lambda=rng.random() < 0.2, check_cond=rng.choice([0, 1, 2]))
        if rng.random() < 0.2:
            o["offset"] = rng.choice([0.1, -0.05, "array"])
        if rng.random() < 0.25:
            o["rho"] = rng.choice([0.3, 0.6])
        if rng.random() < 0.15:
            o["transform_X"] = "scaled"
        if rng.random() < 0.15:
            o["max_inner"] = rng.choice([1, 3])
        return o
    o.update(max_inner=rng.choice([20, 40]), extend_lambda=rng.random() < 0.3, control_lambda=rng.choice([0, 1, 2]),
             method=rng.choice(["QR/Chol", "Chol", "LU/Chol"]), check_cond=rng.choice([0, 1]),
             prefit_grad=rng.random() < 0.5, repara=rng.random() < 0.7, should_keep_drop=rng.random() < 0.5,
             seed=rng.choice([0, 4]))
    if kind in ops.LSS:
        return o
    if kind.startswith("user") or kind == "multigauss" or rng.random() < 0.5:
        o["method"] = "qEFS"
        o["extend_lambda"] = False
        o["control_lambda"] = rng.choice([0, 1])
        o["sample_hessian_method"] = 0
        o["structured_qefs"] = rng.random() < 0.6
        if rng.random() < 0.5:
            o["structured_qefs_budget"] = rng.choice([0.5, 1.0])
        if rng.random() < 0.5:
            o["sample_hessian_options"] = rng.choice([dict(delta=0.99), dict(delta=0.9)])
        if rng.random() < 0.3:
            o["bfgs_options"] = dict(gtol=0, ftol=1e-7, maxcor=30, maxls=100, maxfun=5000)
        if rng.random() < 0.4:
            o["qEFS_memory_usage"] = rng.choice([0.5, 1.0])
        if rng.random() < 0.3:
            o["qEFS_final_memory_usage"] = rng.choice([0.3, 0.8])
    if rng.random() < 0.2:
        o["max_restarts"] = 1
    if rng.random() < 0.3:
        o["init_lambda"] = rng.choice([0.5, 3.0])
    if rng.random() < 0.2:
        o["gamma"] = 1.5
    if rng.random() < 0.25:
        o["build_mat"] = "all"
    if rng.random() < 0.25:
        o["init_coef"] = rng.choice([0.0, 0.1])
    if kind != "prophaz" and rng.random() < 0.2:
        o["extra_penalties"] = rng.choice([0, 1])
    return o


class Options:
    """The user's settings: dictionaries among them are made once and given to every fit."""

    def __init__(self):
        self.made = {}

    def of(self, o):
        out = {}
        for k, v in o.items():
            if isinstance(v, dict):
                key = k + repr(sorted(v.items()))
                if key not in self.made:
                    self.made[key] = (dict(v), dict(v))
                out[k] = self.made[key][0]
            else:
                out[k] = v
        return out

    def once(self, key, make):
        """An object of the user, made once and given to every fit that can use it."""
        if key not in self.made:
            v = make()
            self.made[key] = (v, copy.deepcopy(v))
        return self.made[key][0]

    def modified(self):
        return [k for k, (v, was) in self.made.items() if changed(fp(was), fp(v))]


def start(m, theta):
    """Parameters a family estimates are kept by the family: put them back to where they started."""
    if theta is not None:
        m.family.theta = copy.deepcopy(theta)


def scaled(X):
    import scipy as scp

    X = (X @ scp.sparse.diags_array(np.where(np.arange(X.shape[1]) == 0, 0.5, 1.0))).tocsc()
    X.sort_indices()
    return X


def do_fit(s, m, o, opt, log=None, stop=None):
    kw = opt.of(o)
    if kw.get("transform_X"):
        kw["transform_X"] = scaled
    if kw.get("offset") == "array":
        kw["offset"] = 0.2 * np.sin(np.arange(len(m.formulas[0].y_flat))).reshape(-1, 1)
    lam = kw.pop("init_lambda", None)
    if kw.get("build_mat"):
        kw["build_mat"] = [True for _ in m.formulas]
    if "init_coef" in kw or "extra_penalties" in kw:
        n = ncoef(m)
        if "init_coef" in kw:
            c = kw["init_coef"]
            kw["init_coef"] = opt.once(f"init_coef {c} {n}", lambda: c * np.cos(np.arange(n)).reshape(-1, 1))
        if "extra_penalties" in kw:
            # only on a coefficient that has no penalty yet
            e = kw["extra_penalties"] if s["terms2"] == "i" and s["kind"] != "multigauss" else 0
            kw["extra_penalties"] = opt.once(f"extra_penalties {e} {n}", lambda: [ridge(n, e)])
    if s["kind"] in GS:

        def cb(outer, pen_llk, coef, lams):
            if log is not None:
                log.append([int(outer), float(np.squeeze(pen_llk)), np.array(coef, dtype=float).copy(), np.array(lams, dtype=float).copy()])
            if stop is not None and len(log) > stop:
                raise RuntimeError("callback fails")

        kw["callback"] = cb
    if lam is not None:
        kw["init_lambda"] = [lam for _ in range(npen(m) + ("extra_penalties" in kw))]
    fit(s, m, **kw)


def ncoef(m):
    from mssm.src.python.formula import build_penalties

    fs = copy.deepcopy(m.formulas)
    for f in fs:
        build_penalties(f)
    return sum(f.n_coef for f in fs) + (m.family.extra_coef or 0)


def ridge(n, where):
    """A penalty of the user on the first (or last) coefficient."""
    import scipy as scp
    from mssm.src.python.custom_types import LambdaTerm, PenType

    at = 0 if where == 0 else n - 1
    emb = scp.sparse.csc_array(([1.0], ([at], [at])), shape=(n, n))
    return LambdaTerm(S_J=scp.sparse.csc_array([[1.0]]), S_J_emb=emb, D_J_emb=emb.copy(), lam=1.0, start_index=at, rank=1,
                      term=0, type=PenType.IDENTITY)


def npen(m):
    from mssm.src.python.formula import build_penalties

    n = 0
    for f in m.formulas:
        n += len(build_penalties(copy.deepcopy(f)))
    return n


def questions(m):
    """The same questions to every fit, so that an answer kept from an earlier fit shows."""
    f = m.formulas[0]
    d = f.data.dropna().iloc[[1, 5, 9, 2]].reset_index(drop=True)
    out = []
    for q in (lambda: m.predict(None, d, ci=True), lambda: m.predict([0], d), lambda: m.sample_post(3, seed=1),
              lambda: m.predict_diff(d, d.iloc[::-1].reset_index(drop=True), None)):
        try:
            out.append(list(q()))
        except Exception:
            out.append(None)
    return out


def outcome(m):
    v = [m.coef, np.array([p.lam for p in (m.overall_penalties or [])], dtype=float), m.edf, m.term_edf,
         getattr(m, "scale", None), m.hessian, m.lvi, getattr(m, "preds", None), getattr(m, "mus", None)]
    th = getattr(m.family, "theta", None)
    v.append(th)
    if m.coef is not None and np.all(np.isfinite(m.coef)):
        v.append(m.get_llk(True))
        for f in (lambda: m.get_reml(), lambda: m.get_resid(), lambda: m.get_resid(type="Deviance"),
                  lambda: m.get_resid(type="ar1"), lambda: m.get_mmat()):
            try:
                v.append(f())
            except Exception:
                v.append(None)
        v.extend(questions(m))
    v.extend(getattr(m, k, None) for k in ("offset", "rho", "res_ar", "hessian_obs", "penalty", "coef_split_idx"))
    return ops.flat([x for x in v])


METHODS = ["llk", "gradient", "hessian", "deviance", "V", "dVy1", "d1", "dy1", "D"]


class Broken:
    """The family's functions fail at the n-th call."""

    def __init__(self, fam, at=None):
        self.fam, self.at, self.n, self.fired = fam, at, 0, False

    def __enter__(self):
        for name in METHODS:
            f = getattr(self.fam, name, None)
            if callable(f):
                self.fam.__dict__[name] = self.wrap(f)
        return self

    def wrap(self, f):
        def g(*a, **k):
            n = self.n
            self.n += 1
            if self.at is not None and n == self.at:
                self.fired = True
                raise ValueError("family fails")
            return f(*a, **k)

        return g

    def __exit__(self, *a):
        for name in METHODS:
            self.fam.__dict__.pop(name, None)
        return False


class P(Prop):
    id = "C16"

    def gen(self, rng, k, tier):
        sc = gen_history(rng)
        if sc["share"] == "family" and rng.random() < 0.5:
            sc["share"] = "frame"
        todo = []
        kinds = [m["kind"] for m in sc["models"]]
        for j in (0, 1):
            for _ in range(rng.randint(1, 3)):
                do = rng.choice(["fit", "hit", "hit", "hit", "callback", "family", "ask", "churn", "third"])
                e = dict(do=do, m=j, num=rng.randrange(1000), set=gen_settings(rng, kinds[j]), at=round(rng.random(), 4))
                if do == "hit":
                    e["kind"] = rng.choice(["interrupt", "interrupt", "mem"])
                if do == "ask":
                    e["op"] = ops.gen(rng, kinds[j])
                todo.append(e)
        same = rng.random() < 0.4
        final = [gen_settings(rng, kinds[0]), gen_settings(rng, kinds[1])]
        if same:
            for j in (0, 1):
                e = [x for x in todo if x["m"] == j]
                final[j] = dict(e[-1]["set"], max_outer=final[j]["max_outer"])
        return dict(models=sc["models"], share=sc["share"], third=sc["third"], todo=todo, final=final)

    def reference(self, sc, ctx, j):
        """Final fit of model j, new, in a process of its own; sizes of the events as well."""

        def go():
            p = Pair(sc)
            m = p.build(j)
            log = []

            def final():
                mm = p.build(j)
                do_fit(p.sp[j], mm, sc["final"][j], Options(), log)
                return outcome(mm), log

            def size(e):
                mm = p.build(j)
                lg = []
                with Lines(None) as ln:
                    try:
                        do_fit(p.sp[j], mm, e["set"], Options(), lg)
                    except Exception:
                        pass
                n = ln.n
                mm = p.build(j)
                with Broken(mm.family) as b:
                    try:
                        do_fit(p.sp[j], mm, e["set"], Options(), [])
                    except Exception:
                        pass
                return n, len(lg), b.n

            def clean(e):
                mm = p.build(j)
                do_fit(p.sp[j], mm, e["set"], Options(), [])
                return outcome(mm)

            del m
            out = [ctx.apart(final), {}, {}]
            for i, e in enumerate(sc["todo"]):
                if e["m"] == j and e["do"] in ("hit", "callback", "family"):
                    out[1][i] = ctx.apart(lambda: size(e))
                    try:
                        out[2][i] = ctx.apart(lambda: clean(e))
                    except Exception as x:
                        out[2][i] = x
            return out

        return ctx.apart(lambda: ctx.quiet("ref", go))

    def run(self, sc, ctx):
        refs = []
        for j in (0, 1):
            try:
                refs.append(self.reference(sc, ctx, j))
            except core.Violation:
                raise
            except Exception as e:
                raise Skip("fit fails: " + cm.exc_text(e))
        sizes = {**refs[0][1], **refs[1][1]}
        clean = {**refs[0][2], **refs[1][2]}
        w = ctx.world("live")

        def live():
            p = Pair(sc)
            opt = Options()
            th = []
            for j in (0, 1):
                p.ms[j] = p.build(j)
                th.append(copy.deepcopy(getattr(p.ms[j].family, "theta", None)))
            todo = [[i for i, o in enumerate(sc["todo"]) if o["m"] == j] for j in (0, 1)]
            datas = fp(p.df)
            while todo[0] or todo[1]:
                c = [j for j in (0, 1) if todo[j]]
                j = c[w.dec.choose(len(c))] if len(c) > 1 else c[0]
                i = todo[j].pop(0)
                e = sc["todo"][i]
                w.note("do", e["do"])
                self.event(sc, ctx, w, p, opt, th, e, sizes.get(i), clean.get(i))
                if changed(datas, fp(p.df)):
                    raise violation("data-modified", f"{e['do']} changed the data frame of the user")
                d = opt.modified()
                if d:
                    raise violation("settings-modified", f"{e['do']} changed the user's {d[0][:60]}")
            first = [0, 1] if w.dec.choose(2) == 0 else [1, 0]
            for j in first:
                start(p.ms[j], th[j])
                log = []
                do_fit(p.sp[j], p.ms[j], sc["final"][j], opt, log)
                self.compare(sc, ctx, j, outcome(p.ms[j]), log, refs[j][0])
            # the first one still is what it was
            j = first[0]
            if not (sc["share"] == "family" and th[j] is not None):
                self.compare(sc, ctx, j, outcome(p.ms[j]), None, refs[j][0], "after fitting the other model, ")

        w.run_client(live)

    def compare(self, sc, ctx, j, got, log, ref, what=""):
        want, wlog = ref
        d = ops.differ(got, want, 1e-8)
        if d is not None:
            raise violation("fit-differs", f"{what}{sc['models'][j]['kind']}: {d}")
        if log is not None:
            if [x[0] for x in log] != [x[0] for x in wlog]:
                raise violation("callback-differs", f"called at {[x[0] for x in log]} vs {[x[0] for x in wlog]}")
            for a, b in zip(log, wlog):
                d = ops.differ(ops.flat(a[1:]), ops.flat(b[1:]), 1e-8)
                if d is not None:
                    raise violation("callback-differs", f"at iteration {a[0]}: {d}")
            ctx.probe("callbacks", len(log))
        ctx.check(1)

    def event(self, sc, ctx, w, p, opt, th, e, size, clean):
        j, do = e["m"], e["do"]
        s, m = p.sp[j], p.ms[j]
        ctx.probe("event " + do)
        if do == "churn":
            churn(e["num"])
            return
        if do == "third":
            fit(sc["third"], uf.build(sc["third"]))
            return
        if do == "ask":
            if m.coef is not None:
                a = ops.Args(s, e["op"], p.df[j])
                try:
                    ops.call(s, m, e["op"], a, None)
                except Exception:
                    pass
            return
        start(m, th[j])
        fired, where, exc = False, "", None
        try:
            if do == "fit":
                do_fit(s, m, e["set"], opt, [])
                outcome(m)
                return
            if do == "hit":
                with Lines(w, int(e["at"] * size[0]), e["kind"]) as ln:
                    try:
                        do_fit(s, m, e["set"], opt, [])
                    finally:
                        fired, where = ln.fired, f"{e['kind']} in {ln.where}"
            elif do == "callback":
                if size[1] == 0:
                    return
                n = int(e["at"] * size[1])
                log = []
                try:
                    do_fit(s, m, e["set"], opt, log, stop=n)
                finally:
                    fired, where = len(log) > n, "callback raising"
            else:
                with Broken(m.family, int(e["at"] * size[2])) as b:
                    try:
                        do_fit(s, m, e["set"], opt, [])
                    finally:
                        fired, where = b.fired, "family raising"
        except core.Violation:
            raise
        except (Exception, KeyboardInterrupt) as x:
            exc = x
        if fired:
            k = f"{do}:{e.get('kind', 'raise')}"
            if do != "hit":
                w.fault_counts[k] = w.fault_counts.get(k, 0) + 1
                w.note("FAULT", k)
            if exc is None and e.get("kind") != "mem":
                # The fault did not surface: then it must not have changed anything
                d = "the fit fails without it" if isinstance(clean, Exception) else ops.differ(outcome(m), clean, 1e-8)
                if d is not None:
                    raise violation("fault-swallowed", f"{s['kind']}, {where}: the fit returned with another result, {d}")
                ctx.probe("faults without effect")
        ctx.probe("faults surfaced" if fired and exc is not None else "fits")

    def shrink(self, sc):
        out = []
        for i in range(len(sc["todo"])):
            out.append(dict(sc, todo=sc["todo"][:i] + sc["todo"][i + 1 :]))
        if sc["share"] != "nothing":
            out.append(dict(sc, share="nothing"))
        for j in (0, 1):
            m = sc["models"][j]
            for k, v in [("terms", "x"), ("terms2", "i"), ("na", 0), ("n", 45)]:
                if m.get(k) != v:
                    ms = list(sc["models"])
                    ms[j] = dict(m, **{k: v})
                    out.append(dict(sc, models=ms))
            for k in list(sc["final"][j]):
                if k in ("max_outer", "method"):
                    continue
                f = list(sc["final"])
                f[j] = {a: b for a, b in f[j].items() if a != k}
                out.append(dict(sc, final=f))
        return out


PROP = P()
