"""C04: faults while working on files surface as errors and never as wrong results."""

import hashlib
import os
import shutil

import numpy as np

from vsim import core
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from .c01 import observe, compare, fit_kw, P as C01P

KINDS = {
    "open_r": ["eacces", "emfile", "enoent", "eio"],
    "fread": ["eio", "mem"],
    "pool_create": ["emfile", "eagain", "mem"],
    "fork": ["eagain", "mem"],
    "submit": ["mem", "eio"],
    "task": ["mem", "eio", "value", "late"],
    "result": ["mem", "eio"],
    "open_w": ["enospc", "eacces", "emfile", "eio"],
    "fwrite": ["enospc", "eio"],
    "fmkdir": ["enospc", "eacces"],
    "fdir": ["eio", "emfile"],
    "fremove": ["eio", "eacces"],
    "frmdir": ["eio"],
    "fstat": ["eacces"],
}


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class P(C01P):
    id = "C04"

    def gen(self, rng, k, tier):
        sc = super().gen(rng, k, tier)
        sc["data"]["n"] = rng.randint(40, 120)
        sc["max_outer"] = rng.choice([1, 2, 2, 3])
        sc["cache"] = rng.random() < 0.4
        n = rng.choice([1, 1, 1, 2, 3])
        fl = []
        for _ in range(n):
            cls = rng.choice(
                ["open_r", "fread", "pool_create", "fork", "submit", "task", "task", "result"]
                + (["open_w", "fwrite", "fwrite", "fmkdir", "fdir", "fremove", "frmdir", "fstat"] if sc["cache"] else [])
            )
            stays = cls in ("open_r", "fread", "open_w") and rng.random() < 0.4
            fl.append([cls, round(rng.random(), 4), rng.choice(KINDS[cls]), "stays" if stays else None])
        sc["faults"] = fl
        sc["retry"] = rng.choice(["model", "fresh"])
        sc["series"] = rng.random() < 0.3
        return sc

    def run(self, sc, ctx):
        import mssm.src.python.gamm_solvers as gs
        from mssm.models import GAMM, Formula, Gaussian, lhs

        df = cm.make_data(sc["data"])
        paths, kw = cm.write_files(df, sc["files"], ctx.root)
        mem = cm.read_back(paths, kw)
        lev = cm.levels_of(mem)
        newdat = mem.dropna().iloc[:12].reset_index(drop=True)
        if len(newdat) < 5:
            raise Skip("too few complete rows")
        sid = "s" if sc.get("clustered") else "g" if sc.get("series") and not mem["g"].isna().any() else None
        method = "Chol" if sc.get("clustered") else "QR"
        before = digest(paths)
        cdir = os.path.join(ctx.root, ".db")
        box = {}

        def job(cores, cache):
            def go():
                gs.SHOULD_CACHE = cache
                gs.CACHE_DIR = cdir
                fo = Formula(
                    lhs("y"),
                    cm.build_terms(sc["form"], lev),
                    data=None,
                    file_paths=paths,
                    file_loading_kwargs=kw,
                    file_loading_nc=sc["nc_load"],
                    keep_cov=sc["keep_cov"],
                    print_warn=False,
                    find_nested=False,
                    series_id=sid,
                )
                m = GAMM(fo, Gaussian())
                box["model"] = m
                m.fit(n_cores=cores, method=method, **fit_kw(sc))
                o = observe(m, newdat)
                if fo.sid is not None:
                    o["series starts"] = np.asarray(fo.sid, dtype=float)
                    o["series lengths"] = np.array([len(c) for c in fo.cov], dtype=float)
                return o

            return go

        try:
            want = ctx.quiet("ref", job(1, False))
            compare("", ctx.quiet("ref", job(3, False)), want, 1e-6, 1e-7)
        except (core.Violation, Exception) as e:
            raise Skip("reference unusable: " + str(e)[:60])

        probe = core.World(seed=0, replay=[], root=ctx.root, n_cpu=sc["n_cpu"])
        probe.run_clients([("a", job(sc["n_cores"], sc["cache"]))])
        shutil.rmtree(cdir, ignore_errors=True)
        box.clear()
        w = ctx.world("faulty", faults=resolve_faults(sc["faults"], probe.counts), n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", job(sc["n_cores"], sc["cache"]))])[0]
        if o.exc is not None:
            if isinstance(o.exc, core.Violation):
                raise o.exc
            if not w.fault_counts:
                raise violation("fails-without-fault", cm.exc_text(o.exc))
            ctx.probe("surfaced")
        else:
            ctx.probe("survived" if w.fault_counts else "no fault struck")
            compare("wrong-after-fault", o.value, want)
        if w.live_pools > 0:
            raise violation("workers-leaked", f"{w.live_pools} worker pools survive the call")
        if digest(paths) != before:
            raise violation("input-modified", "an input file was modified")
        ctx.check(3)

        # Faults are over: the same work succeeds and gives the fault-free result
        shutil.rmtree(cdir, ignore_errors=True)
        m = box.get("model")
        if o.exc is not None and sc["retry"] == "model" and m is not None:

            def again():
                gs.SHOULD_CACHE = sc["cache"]
                gs.CACHE_DIR = cdir
                m.fit(n_cores=sc["n_cores"], method=method, **fit_kw(sc))
                return observe(m, newdat)

            fn = again
            ctx.probe("retried on the same model")
        else:
            fn = job(sc["n_cores"], sc["cache"])
        w = ctx.world("retry", n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", fn)])[0]
        if o.exc is not None:
            if isinstance(o.exc, core.Violation):
                raise o.exc
            raise violation("retry-fails", cm.exc_text(o.exc))
        compare("retry-differs", o.value, {k: v for k, v in want.items() if k in o.value})
        if os.path.isdir(cdir):
            raise violation("cache-left-behind", "the cache directory survives a successful fit")
        ctx.check(2)

    def shrink(self, sc):
        out = super().shrink(sc)
        if sc["cache"]:
            out.append(dict(sc, cache=False))
        return out


PROP = P()
