"""C01: a fit streamed from files equals the fit of the same data held in memory."""

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation
from . import common as cm


def fit_kw(sc):
    return dict(
        progress_bar=False,
        max_outer=sc["max_outer"],
        control_lambda=sc["control"],
        extend_lambda=sc["extend"],
        exclude_lambda=sc["exclude"],
    )


def observe(m, newdat):
    o = {
        "coefficients": m.coef,
        "effective degrees of freedom": m.edf,
        "term-wise effective degrees of freedom": (
            None if m.term_edf is None else np.asarray(m.term_edf, dtype=float).reshape(-1)
        ),
        "scale": m.scale,
        "penalty": np.asarray(m.penalty, dtype=float).reshape(-1),
        "smoothing parameters": np.array(
            [float(np.asarray(p.lam).reshape(-1)[0]) for p in (m.overall_penalties or [])]
        ),
        "fitted values": m.preds[0],
        "fitted means": m.mus[0],
        "residuals": m.get_resid(),
        "hessian": m.hessian,
        "iterations": m.info.iter,
    }
    pr, _, se = m.predict(None, newdat, ci=True)
    o["predictions"] = pr
    o["prediction intervals"] = se
    if m.lvi is not None:
        L = cm.dense(m.lvi)
        o["coefficient covariance"] = L.T @ L
    return o


def compare(sig, got, ref, rtol=1e-5, atol=1e-6):
    for k, b in ref.items():
        a = got.get(k)
        if b is None or a is None:
            if (a is None) != (b is None):
                raise violation(sig, f"{k}: {a!r} vs {b!r}")
            continue
        if k == "iterations":
            if a != b:
                raise violation(sig, f"{k}: {a!r} vs {b!r}")
            continue
        if k == "smoothing parameters":
            with np.errstate(all="ignore"):
                if a.shape != b.shape or not np.allclose(np.log(a), np.log(b), atol=1e-4):
                    raise violation(sig, f"{k}: {a} vs {b}")
            continue
        cm.require_close(sig, k, a, b, rtol, atol)


class P(Prop):
    id = "C01"

    def gen(self, rng, k, tier):
        sc = dict(
            data=cm.gen_data(rng, 60, 200),
            form=cm.gen_terms(rng),
            files=cm.gen_files(rng),
            keep_cov=rng.random() < 0.4,
            nc_load=rng.choice([1, 2, 3, 5, 10]),
            n_cores=rng.choice([1, 2, 3, 4, 7]),
            n_cpu=rng.choice([1, 2, 4, 8, 16]),
            max_outer=rng.choice([1, 2, 2, 3, 4]),
            control=rng.choice([0, 1, 2, 2, 3]),
            extend=rng.random() < 0.3,
            exclude=rng.random() < 0.3,
            nested=rng.random() < 0.5,
            codebook=rng.random() < 0.3,
            cache=False,
        )
        if tier == "thorough" and rng.random() < 0.1:
            sc["max_outer"] = 50
        if rng.random() < 0.08:
            cm.make_clustered(sc, rng)
        return sc

    def run(self, sc, ctx):
        from mssm.models import GAMM, Formula, Gaussian, lhs

        df = cm.make_data(sc["data"])
        paths, kw = cm.write_files(df, sc["files"], ctx.root)
        mem = cm.read_back(paths, kw)
        lev = cm.levels_of(mem)
        nested = sc["nested"] and sc["keep_cov"]
        cb = None
        if sc["codebook"]:
            cb = {
                c: {v: j for j, v in enumerate(reversed(lev[c]))} for c in lev if len(lev[c])
            }

        def ref(method="Chol", eps=0.0, back=False):
            dat = mem.iloc[::-1].reset_index(drop=True) if back else mem
            if eps:
                dat = mem.copy()
                r = np.random.default_rng(5).normal(size=len(mem))
                dat["y"] = dat["y"] * (1 + eps * r)
            fo = Formula(
                lhs("y"),
                cm.build_terms(sc["form"], lev),
                data=dat,
                print_warn=False,
                find_nested=nested,
                codebook=cb,
                series_id="s" if sc.get("clustered") else None,
            )
            m = GAMM(fo, Gaussian())
            m.fit(n_cores=1, method=method, **fit_kw(sc))
            return observe(m, newdat)

        newdat = mem.dropna().iloc[:25].reset_index(drop=True)
        if len(newdat) < 5:
            raise Skip("too few complete rows")
        try:
            want = ctx.quiet("ref", ref)
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("reference fit fails: " + cm.exc_text(e))
        if not np.all(np.isfinite(want["coefficients"])):
            raise Skip("reference not finite")
        # Problems whose solution rounding errors decide say nothing about the property
        try:
            compare("", ctx.quiet("ref2", lambda: ref(eps=1e-9)), want, 1e-6, 1e-7)
            if not sc.get("clustered"):
                compare("", ctx.quiet("ref3", lambda: ref(method="QR")), want, 1e-6, 1e-7)
            if not sc.get("clustered"):
                keys = ("smoothing parameters", "scale", "effective degrees of freedom", "predictions", "prediction intervals")
                compare("", ctx.quiet("ref4", lambda: ref(back=True)), {k: want[k] for k in keys}, 1e-6, 1e-7)
        except Exception as e:
            raise Skip("ill-conditioned: " + str(e)[:60])

        def sim():
            fo = Formula(
                lhs("y"),
                cm.build_terms(sc["form"], lev),
                data=None,
                file_paths=paths,
                file_loading_kwargs=kw,
                file_loading_nc=sc["nc_load"],
                keep_cov=sc["keep_cov"],
                print_warn=False,
                find_nested=nested,
                codebook=cb,
                series_id="s" if sc.get("clustered") else None,
            )
            m = GAMM(fo, Gaussian())
            m.fit(n_cores=sc["n_cores"], method="Chol" if sc.get("clustered") else "QR", **fit_kw(sc))
            return observe(m, newdat)

        w = ctx.world("stream", n_cpu=sc["n_cpu"])
        try:
            got = w.run_client(sim)
        except core.Violation:
            raise
        except Exception as e:
            raise violation("stream-fails", f"in-memory fit succeeds, file fit raises {cm.exc_text(e)}")
        compare("stream-differs", got, want)
        ctx.check(len(want))

    def shrink(self, sc):
        out = []
        for c in cm.shrink_terms(sc["form"]):
            out.append(dict(sc, form=c))
        for k, v in [
            ("keep_cov", bool(sc.get("clustered"))),
            ("codebook", False),
            ("nested", False),
            ("extend", False),
            ("exclude", False),
            ("control", 2),
            ("max_outer", 1),
            ("nc_load", 1),
            ("n_cores", 1),
            ("n_cpu", 8),
        ]:
            if sc[k] != v:
                out.append(dict(sc, **{k: v}))
        f = sc["files"]
        if len(f["sizes"]) > 1:
            out.append(dict(sc, files=dict(f, sizes=f["sizes"][:-1])))
        if f["naming"] != "flat":
            out.append(dict(sc, files=dict(f, naming="flat")))
        if f.get("blank"):
            out.append(dict(sc, files=dict(f, blank=None)))
        if f["fmt"] != "plain":
            out.append(dict(sc, files=dict(f, fmt="plain")))
        d = sc["data"]
        if d.get("na"):
            out.append(dict(sc, data=dict(d, na={})))
            for c in d["na"]:
                out.append(dict(sc, data=dict(d, na={a: b for a, b in d["na"].items() if a != c})))
        if d["n"] > 40:
            out.append(dict(sc, data=dict(d, n=max(40, d["n"] // 2))))
        return out


PROP = P()
