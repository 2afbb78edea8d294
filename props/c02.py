"""C02: a formula set up from files equals the formula set up from the same data in memory."""

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation
from . import common as cm
from .c01 import P as C01P


def plain(d):
    """Comparable form of a level/coding dictionary."""
    return {
        str(k): (
            [str(x) for x in v]
            if isinstance(v, (list, np.ndarray))
            else {str(a): str(b) for a, b in v.items()} if isinstance(v, dict) else str(v)
        )
        for k, v in d.items()
    }


def num(d):
    return {k: (None if v is None else float(v)) for k, v in d.items()}


def observe(fo, newdat, keep):
    from mssm.src.python.formula import build_penalties, build_sparse_matrix_from_formula

    o = {
        "variable types": plain(fo.get_var_types()),
        "variable columns": {k: int(v) for k, v in fo.get_var_map().items()},
        "minima": num(fo.get_var_mins()),
        "maxima": num(fo.get_var_maxs()),
        "factor levels": plain(fo.get_factor_levels()),
        "factor codings": plain(fo.get_factor_codings()),
        "level of code": plain(fo.get_coding_factors()),
        "coefficient names": list(fo.coef_names),
        "coefficients": int(fo.n_coef),
        "coefficients per term": [int(c) for c in fo.coef_per_term],
        "unpenalized": int(fo.unpenalized_coef),
        "terms": list(fo.get_term_names()),
    }
    _, cov, _, _, _, _, _ = fo.encode_data(newdat, prediction=True)
    o["encoded new data"] = cov
    X = build_sparse_matrix_from_formula(
        fo.terms,
        fo.has_intercept,
        fo.get_linear_term_idx(),
        fo.get_ir_smooth_term_idx(),
        fo.get_smooth_term_idx(),
        fo.get_random_term_idx(),
        fo.get_var_types(),
        fo.get_var_map(),
        fo.get_var_mins(),
        fo.get_var_maxs(),
        fo.get_factor_levels(),
        cov,
        None,
    )
    o["model matrix of new data"] = X
    pens = build_penalties(fo)
    for j, p in enumerate(pens):
        o[f"penalty {j}"] = p.S_J_emb
    o["penalties"] = len(pens)
    for j, d in fo.discretize.items():
        o[f"clusters of term {j}"] = np.asarray(d["clust_series"], dtype=float)
        o[f"weights of clusters of term {j}"] = np.concatenate([np.asarray(v, dtype=float) for v in d["clust_weights"]])
    if keep:
        o["kept response"] = np.asarray(fo.y_flat, dtype=float).reshape(-1)
        o["kept complete-row index"] = np.asarray(fo.NOT_NA_flat).astype(float)
        o["kept covariates"] = fo.cov_flat[np.asarray(fo.NOT_NA_flat), :]
        o["series starts"] = None if fo.sid is None else np.asarray(fo.sid, dtype=float)
        if fo.cov is not None:
            o["series lengths"] = [len(c) for c in fo.cov]
            o["complete rows per series"] = [int(np.sum(c)) for c in fo.NOT_NA]
    return o


def compare(sig, got, ref):
    for k in ref:
        if k not in got:
            raise violation(sig, f"{k} missing")
        a, b = got[k], ref[k]
        if isinstance(b, (np.ndarray,)) or hasattr(b, "toarray"):
            cm.require_close(sig, k, a, b, 1e-8, 1e-9)
        elif a != b:
            raise violation(sig, f"{k}: {a!r} vs {b!r}")


class P(C01P):
    id = "C02"

    def gen(self, rng, k, tier):
        sc = super().gen(rng, k, tier)
        sc["series"] = rng.random() < 0.5
        sc["data"]["n"] = rng.randint(30, 150)
        return sc

    def run(self, sc, ctx):
        from mssm.models import Formula, lhs

        df = cm.make_data(sc["data"])
        paths, kw = cm.write_files(df, sc["files"], ctx.root)
        mem = cm.read_back(paths, kw)
        lev = cm.levels_of(mem)
        nested = sc["nested"] and sc["keep_cov"]
        cb = None
        if sc["codebook"]:
            cb = {c: {v: j for j, v in enumerate(reversed(lev[c]))} for c in lev if lev[c]}
        sid = "g" if sc["series"] and not mem["g"].isna().any() else None
        if sc.get("clustered"):
            sid = "s"
        newdat = mem.dropna().iloc[:12].reset_index(drop=True)
        if len(newdat) < 3:
            raise Skip("too few complete rows")
        common = dict(print_warn=False, find_nested=nested, codebook=cb, series_id=sid)

        def ref():
            fo = Formula(lhs("y"), cm.build_terms(sc["form"], lev), data=mem, **common)
            return observe(fo, newdat, sc["keep_cov"])

        def sim():
            fo = Formula(
                lhs("y"),
                cm.build_terms(sc["form"], lev),
                data=None,
                file_paths=paths,
                file_loading_kwargs=kw,
                file_loading_nc=sc["nc_load"],
                keep_cov=sc["keep_cov"],
                **common,
            )
            return observe(fo, newdat, sc["keep_cov"])

        try:
            want = ctx.quiet("ref", ref)
        except core.Violation:
            raise
        except Exception as e:
            raise Skip("reference set-up fails: " + cm.exc_text(e))
        for j in range(2):
            w = ctx.world(f"setup{j}", n_cpu=sc["n_cpu"])
            try:
                got = w.run_client(sim)
            except core.Violation:
                raise
            except Exception as e:
                raise violation("setup-fails", f"in-memory set-up succeeds, files: {cm.exc_text(e)}")
            compare("setup-differs", got, want)
            ctx.check(len(want))


PROP = P()
