"""C03: the row-block cache never changes a result, is never reused stale and cleans up."""

import os
import random
import shutil

import numpy as np

from vsim import core, fssim
from vsim.harness import Prop, Skip, violation, resolve_faults
from . import common as cm
from .c01 import observe, compare, P as C01P

MODES = ["clean", "clean", "crash", "crash", "exists", "concurrent", "twice", "stuck"]


def tree(path, without=None):
    out = {}
    for base, dirs, files in os.walk(path):
        if without is not None:
            dirs[:] = [d for d in dirs if os.path.normpath(os.path.join(base, d)) != os.path.normpath(without)]
        for f in files:
            p = os.path.join(base, f)
            with fssim._real["open"](p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


class P(C01P):
    id = "C03"

    def gen(self, rng, k, tier):
        sc = super().gen(rng, k, tier)
        sc["data"]["n"] = rng.randint(40, 120)
        sc["files"] = cm.gen_files(rng)
        if rng.random() < 0.3:
            sc["files"]["naming"] = "samename"
        sc["mode"] = rng.choice(MODES)
        sc["max_outer"] = rng.choice([1, 2, 3])
        sc["cache_dir"] = rng.choice(["./.db", "cache", "deep/er/cache", "abs"])
        sc["crash"] = rng.random()
        sc["crash_cls"] = rng.choice(["any", "fwrite", "fwrite", "open_w", "task", "fremove", "fmkdir", "frmdir"])
        sc["stuck"] = rng.choice(["fremove", "frmdir", "fdir"])
        sc["power"] = rng.random() < 0.5
        sc["after"] = rng.choice(["same", "changed"])
        sc["other_cores"] = rng.choice([1, 2, 5])
        return sc

    def run(self, sc, ctx):
        import mssm.src.python.gamm_solvers as gs
        from mssm.models import GAMM, Formula, Gaussian, lhs
        from .c01 import fit_kw

        root = ctx.root
        df = cm.make_data(sc["data"])
        df2 = df.copy()
        df2["y"] = df2["y"] * 1.5 + df2["x"].fillna(0) ** 2
        df2["x"] = 1 - df2["x"]
        cdir = os.path.join(root, "abscache") if sc["cache_dir"] == "abs" else sc["cache_dir"]
        apath = os.path.join(root, cdir)

        def put(d):
            paths, kw = cm.write_files(d, sc["files"], root)
            return paths, kw

        def job(paths, kw, newdat, lev, cache, cores):
            def go():
                gs.SHOULD_CACHE = cache
                gs.CACHE_DIR = cdir
                fo = Formula(
                    lhs("y"),
                    cm.build_terms(sc["form"], lev),
                    data=None,
                    file_paths=paths,
                    file_loading_kwargs=kw,
                    file_loading_nc=sc["nc_load"],
                    keep_cov=sc["keep_cov"],
                    print_warn=False,
                    find_nested=False,
                    series_id="s" if sc.get("clustered") else None,
                )
                m = GAMM(fo, Gaussian())
                m.fit(n_cores=cores, method="Chol" if sc.get("clustered") else "QR", **fit_kw(sc))
                return observe(m, newdat)

            return go

        def reference(d):
            paths, kw = put(d)
            mem = cm.read_back(paths, kw)
            newdat = mem.dropna().iloc[:15].reset_index(drop=True)
            if len(newdat) < 5:
                raise Skip("too few complete rows")
            lev = cm.levels_of(mem)
            try:
                a = ctx.quiet("r", job(paths, kw, newdat, lev, False, 1))
                b = ctx.quiet("r", job(paths, kw, newdat, lev, False, 3))
                compare("", a, b, 1e-6, 1e-7)
            except (core.Violation, Exception) as e:
                raise Skip("reference unusable: " + str(e)[:60])
            return paths, kw, newdat, lev, b

        def judged(tag, out, want, refusal):
            """A client that used the cache: right result, or (where allowed) an exception."""
            if out.exc is not None:
                if isinstance(out.exc, core.Violation):
                    raise out.exc
                if refusal:
                    return "raised"
                raise violation("cached-fit-fails", f"{tag}: {cm.exc_text(out.exc)}")
            if out.crashed:
                return "crashed"
            compare("cached-fit-differs", out.value, want)
            return "ok"

        mode = sc["mode"]
        second = None
        if mode in ("crash", "twice") and sc["after"] == "changed":
            second = reference(df2)
        first = reference(df)
        paths, kw, newdat, lev, want = first
        shutil.rmtree(apath, ignore_errors=True)

        def client(args, cores):
            return job(args[0], args[1], args[2], args[3], True, cores)

        if mode == "exists":
            os.makedirs(apath)
            with open(os.path.join(apath, "precious.txt"), "w") as fh:
                fh.write("keep me")
            before = tree(apath)
            w = ctx.world("exists", n_cpu=sc["n_cpu"])
            o = w.run_clients([("a", client(first, sc["n_cores"]))])[0]
            if o.ok:
                raise violation("existing-dir-used", "a cache directory that already exists is used")
            if isinstance(o.exc, core.Violation):
                raise o.exc
            if tree(apath) != before:
                raise violation("existing-dir-touched", "contents of an existing directory changed")
            ctx.check(2)
            return

        if mode == "concurrent":
            w = ctx.world("concurrent", n_cpu=sc["n_cpu"])
            outs = w.run_clients(
                [("a", client(first, sc["n_cores"])), ("b", client(first, sc["other_cores"]))]
            )
            got = [judged(n, o, want, True) for n, o in zip("ab", outs)]
            ctx.probe("concurrent " + "/".join(sorted(got)))
            # (if the refused one started late both may succeed, one after the other)
            if got.count("ok") == 0:
                raise violation(
                    "concurrent-both-fail",
                    f"{cm.exc_text(outs[0].exc)} and {cm.exc_text(outs[1].exc)}",
                )
            if os.path.isdir(apath):
                raise violation("cache-left-behind", "the cache directory survives a successful fit")
            ctx.check(2)
            return

        if mode in ("clean", "twice"):
            # Somebody else's files next to the cache
            for f in ("blocks.npz", "deep/er/blocks.npz", "deep/notes.txt", ".db.npz", "cache.csv"):
                p = os.path.join(root, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fh:
                    fh.write(f)
            before = tree(root, apath)
            w = ctx.world("plain", n_cpu=sc["n_cpu"])
            plain = w.run_clients([("a", job(paths, kw, newdat, lev, False, sc["n_cores"]))])[0]
            w = ctx.world("clean", n_cpu=sc["n_cpu"])
            o = w.run_clients([("a", client(first, sc["n_cores"]))])[0]
            judged("fit with cache", o, want, False)
            if plain.ok and o.ok:
                compare("cached-fit-differs", o.value, plain.value, 1e-11, 1e-12)
            if tree(root, apath) != before:
                raise violation("others-touched", "a fit changed files outside of its cache directory")
            ctx.probe("cache files written", w.counts.get("open_w", 0))
            if os.path.isdir(apath):
                raise violation("cache-left-behind", "the cache directory survives a successful fit")
            ctx.check(2)
            if mode == "twice":
                nxt = first
                if second is not None:
                    put(df2)
                    nxt = second
                w = ctx.world("again", n_cpu=sc["n_cpu"])
                o = w.run_clients([("a", client(nxt, sc["other_cores"]))])[0]
                judged("second fit with cache", o, nxt[4], False)
                ctx.check()
            return

        if mode == "stuck":
            # The cache cannot be removed, or not be listed
            probe = core.World(seed=0, replay=[], root=root, n_cpu=sc["n_cpu"])
            probe.run_clients([("a", client(first, sc["n_cores"]))])
            shutil.rmtree(apath, ignore_errors=True)
            w = ctx.world("stuck", faults=resolve_faults([[sc["stuck"], sc["crash"], "eacces", "stays" if sc["power"] else None]], probe.counts), n_cpu=sc["n_cpu"])
            o = w.run_clients([("a", client(first, sc["n_cores"]))])[0]
            st = judged("fit", o, want, bool(w.fault_counts))
            if st == "ok" and os.path.isdir(apath):
                raise violation("cache-left-behind", "the cache directory survives a successful fit")
            ctx.probe("stuck " + st)
            ctx.check(2)
            return

        # crash at a seam operation of the fit, optionally losing unsynced file contents
        probe = core.World(seed=0, replay=[], root=root, n_cpu=sc["n_cpu"])
        probe.run_clients([("a", client(first, sc["n_cores"]))])
        shutil.rmtree(apath, ignore_errors=True)
        cls = sc["crash_cls"]
        if cls == "any":
            pool = [c for c, v in sorted(probe.counts.items()) for _ in range(v)]
            cls = pool[int(sc["crash"] * len(pool)) % len(pool)]
        faults = resolve_faults([[cls, sc["crash"], "crash", None]], probe.counts)
        w = ctx.world("crash", faults=faults, n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", client(first, sc["n_cores"]))])[0]
        st = judged("fit", o, want, False)
        if sc["power"]:
            ctx.probe("files torn by power loss", fssim.power_loss(w, random.Random(sc["data"]["seed"])))
        left = os.path.isdir(apath)
        ctx.probe("crash " + st + (" cache left" if left else ""))
        # next process: same or changed data
        nxt = first
        if second is not None:
            put(df2)
            nxt = second
        else:
            put(df)
        before = tree(apath) if left else None
        w = ctx.world("restart", n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", client(nxt, sc["other_cores"]))])[0]
        st = judged("fit after crash", o, nxt[4], left)
        if left and st == "raised" and tree(apath) != before:
            raise violation("left-over-touched", "refused, but the left-over cache was modified")
        ctx.probe("restart " + st)
        shutil.rmtree(apath, ignore_errors=True)
        w = ctx.world("retry", n_cpu=sc["n_cpu"])
        o = w.run_clients([("a", client(nxt, sc["n_cores"]))])[0]
        judged("fit after removing the left-over cache", o, nxt[4], False)
        if os.path.isdir(apath):
            raise violation("cache-left-behind", "the cache directory survives a successful fit")
        ctx.check(3)

    def shrink(self, sc):
        out = super().shrink(sc)
        for k, v in [("power", False), ("after", "same"), ("cache_dir", "./.db"), ("other_cores", 1)]:
            if sc[k] != v:
                out.append(dict(sc, **{k: v}))
        return out


PROP = P()
