"""Scenario building blocks shared by the properties: data sets, partitions, formulas, comparisons."""

import os

import numpy as np
import pandas as pd
import scipy as scp

from vsim.harness import violation

ARRANGE = ["contig", "interleave", "by_group", "by_factor"]


# ------------------------------------------------------------------------------------ data


def make_data(d):
    """Data frame from a JSON description."""
    rng = np.random.default_rng(d["seed"])
    n = d["n"]
    ns, nf, ng = d.get("ns", 4), d.get("nf", 3), d.get("ng", 2)
    if d.get("grid"):
        x = rng.integers(0, 40, n) / 40.0
    else:
        x = rng.uniform(0, 1, n)
    w = rng.uniform(-2, 3, n)
    z = rng.normal(size=n)
    k = rng.integers(0, 12, n)  # integer covariate
    lev_f = [["b", "a", "c"], ["10", "9", "1"], ["B", "a", "C"], ["lo w", "hi-gh", "mid"]][
        d.get("flav", 0)
    ]
    lev_f = (lev_f + ["d", "e"])[:nf]
    lev_s = [f"s{j + 1}" for j in range(ns)]
    fi = rng.permutation(np.arange(n) % nf)
    si = rng.permutation(np.arange(n) % ns)
    gi = rng.permutation(np.arange(n) % ng)
    f = np.array([lev_f[j] for j in fi], dtype=object)
    s = np.array([lev_s[j] for j in si], dtype=object)
    if d.get("within"):
        # Levels of s belong to one level of g
        gi = si % ng
    g = np.array([["u", "v", "w"][j] for j in gi], dtype=object)
    u = rng.normal(size=(ns,)) * 0.5
    mu = (
        np.sin(5 * x)
        + 0.3 * z
        + 0.4 * fi * x
        + u[si]
        + 0.2 * np.cos(w)
        + 0.05 * k
        + 0.3 * x * w * 0.3
        + 0.2 * gi
    )
    fam = d.get("family", "Gaussian")
    if fam == "Gaussian":
        y = mu + rng.normal(size=n) * d.get("sigma", 0.4)
    elif fam == "Gamma":
        m = np.exp(0.3 * mu)
        y = rng.gamma(4.0, m / 4.0) + 1e-3
    elif fam == "Poisson":
        y = rng.poisson(np.exp(0.4 * mu)).astype(float)
    elif fam == "Binomial":
        y = (rng.uniform(size=n) < 1 / (1 + np.exp(-mu))).astype(float)
    else:
        raise KeyError(fam)
    df = pd.DataFrame(dict(y=y, x=x, w=w, z=z, k=k, f=f, s=s, g=g))
    df["y"] = df["y"].round(6)
    for c in ("x", "w", "z"):
        df[c] = df[c].round(5)
    if d.get("order") == "by_group":
        df = df.sort_values(["s"], kind="stable")
    elif d.get("order") == "by_factor":
        df = df.sort_values(["f"], kind="stable")
    elif d.get("order") == "by_x":
        df = df.sort_values(["x"], kind="stable")
    df = df.reset_index(drop=True)
    # missing values
    na = d.get("na", {})
    for col, cnt in sorted(na.items()):
        if cnt:
            idx = rng.choice(n, size=min(cnt, n // 8), replace=False)
            df.loc[idx, col] = np.nan
    return df


def gen_data(rng, n_lo=60, n_hi=260, na=True, family="Gaussian"):
    d = dict(
        seed=rng.randrange(10**6),
        n=rng.randint(n_lo, n_hi),
        ns=rng.choice([2, 3, 4, 5]),
        nf=rng.choice([2, 3, 3, 4]),
        ng=rng.choice([2, 2, 3]),
        flav=rng.choice([0, 1, 2, 3]),
        grid=rng.random() < 0.2,
        order=rng.choice(["", "", "by_group", "by_factor", "by_x"]),
        within=rng.random() < 0.2,
        family=family,
    )
    if na and rng.random() < 0.6:
        nas = {}
        if rng.random() < 0.7:
            nas["y"] = rng.choice([1, 3, 9])
        if rng.random() < 0.4:
            nas[rng.choice(["x", "w", "z"])] = rng.choice([1, 2, 5])
        if rng.random() < 0.3:
            nas[rng.choice(["f", "s"])] = rng.choice([1, 2, 5])
        d["na"] = nas
    return d


# ------------------------------------------------------------------------------------ files


def cut(n, sizes):
    """Turn fractions into row slices covering 0..n with every part non-empty."""
    cuts = np.cumsum(sizes) / np.sum(sizes)
    ends = np.clip(np.round(cuts * n).astype(int), 1, n)
    for j in range(len(ends)):
        lo = (ends[j - 1] if j else 0) + 1
        ends[j] = max(ends[j], lo)
    ends[-1] = n
    for j in range(len(ends) - 2, -1, -1):
        ends[j] = min(ends[j], ends[j + 1] - 1)
    starts = np.concatenate([[0], ends[:-1]])
    return list(zip(starts.tolist(), ends.tolist()))


def gen_files(rng, fancy=True):
    nf = rng.choice([1, 2, 2, 3, 3, 4, 5, 9])
    sizes = [rng.choice([1, 1, 1, 2, 5]) for _ in range(nf)]
    if rng.random() < 0.3:
        sizes[rng.randrange(nf)] = 1e-6  # becomes a single row
    out = dict(sizes=sizes, naming=rng.choice(["flat", "flat", "flat", "dirs", "samename"]))
    out["fmt"] = "plain"
    if fancy:
        out["fmt"] = rng.choice(["plain", "plain", "plain", "sep", "strfac", "navals", "extra"])
    if nf > 1 and rng.random() < 0.15:
        # One file without a single value for a variable
        out["blank"] = [rng.randrange(nf), rng.choice(["y", "y", "x", "w", "z", "f", "s"])]
    return out


def write_files(df, spec, root):
    """Write the partition; returns (paths, read_csv keyword arguments)."""
    paths = []
    kw = {"header": 0, "index_col": False}
    fmt = spec.get("fmt", "plain")
    out = dict(index=False)
    df = df.copy()
    dt = {"f": str, "s": str, "g": str}
    if fmt == "sep":
        out.update(sep=";", decimal=",")
        kw.update(sep=";", decimal=",")
    elif fmt == "navals":
        out.update(na_rep="missing")
        kw.update(na_values=["missing"])
    elif fmt == "extra":
        df.insert(0, "junk", np.arange(len(df)))
        kw.update(usecols=[c for c in df.columns if c != "junk"])
    # Factors whose labels look like numbers need a dtype, as the documentation demands
    if fmt == "strfac" or any(str(v).isdigit() for v in df["f"].dropna().unique()):
        kw.update(dtype=dt)
    for j, (a, b) in enumerate(cut(len(df), spec["sizes"])):
        nm = spec.get("naming", "flat")
        if nm == "flat":
            p = os.path.join(root, f"part{j}.csv")
        elif nm == "dirs":
            os.makedirs(os.path.join(root, f"d{j % 2}"), exist_ok=True)
            p = os.path.join(root, f"d{j % 2}", f"part{j}.csv")
        else:
            os.makedirs(os.path.join(root, f"d{j}"), exist_ok=True)
            p = os.path.join(root, f"d{j}", "part.csv")
        part = df.iloc[a:b]
        if spec.get("blank") and spec["blank"][0] == j:
            part = part.assign(**{spec["blank"][1]: np.nan})
        part.to_csv(p, **out)
        paths.append(p)
    return paths, kw


def read_back(paths, kw):
    """What a user would do instead: load all files, concatenate."""
    return pd.concat([pd.read_csv(p, **kw) for p in paths], ignore_index=True)


# ------------------------------------------------------------------------------------ formulas

# Building blocks: (name, variables it uses). At most one per group of a formula.
LINEAR = [
    [],
    [["l", ["f"]]],
    [["l", ["z"]]],
    [["l", ["f"]], ["l", ["z"]]],
    [["l", ["f"]], ["l", ["z"]], ["l", ["f", "z"]]],
    [["l", ["f"]], ["l", ["g"]], ["l", ["f", "g"]]],
    [["l", ["z"]], ["l", ["k"]]],
]
SMOOTH = [
    [],
    [["f", ["x"], {}]],
    [["f", ["x"], {"by": "f"}]],
    [["f", ["x"], {"by": "f", "id": 1}]],
    [["f", ["x"], {"binary": ["f", 1]}]],
    [["f", ["x"], {"by_cont": "z"}]],
    [["f", ["x"], {"identifiable": False, "by": "f"}]],
    [["f", ["x", "w"], {"te": True, "rp": 0}]],
    [["f", ["x", "w"], {"te": True, "rp": 0, "by": "g"}], ["l", ["g"]]],
    [["f", ["x"], {}], ["f", ["w"], {}]],
    [["f", ["x"], {"id": 1}], ["f", ["w"], {"id": 1}]],
    [["f", ["x"], {}], ["f", ["w"], {}], ["f", ["x", "w"], {"rp": 0}]],
    [["f", ["x"], {"penalize_null": True}]],
    [["f", ["x"], {"identifiable": False, "by": "f", "rp": 1}]],
    [["f", ["k"], {}]],
    [["f", ["x"], {"basis_kwargs": {"deg": 2}}]],
    [["f", ["x"], {"pen_kwargs": [{"m": 1}]}]],
]
RANDOM = [
    [],
    [["ri", "s"]],
    [["rs", ["z"], "s"]],
    [["ri", "s"], ["rs", ["z"], "s"]],
    [["rs", ["f"], "s"]],
    [["fs", ["w"], "s", {}]],
    [["fs", ["w"], "s", {"m": 2}]],
    [["fs", ["w"], "s", {"by_subgroup": ["g", "u"]}]],
    [["fs", ["w"], "s", {"by_subgroup": ["g", "u"]}], ["fs", ["w"], "s", {"by_subgroup": ["g", "v"]}]],
    [["ri", "g"]],
]


# Factor smooth with derivatives approximated from clusters of series
CLUSTERED = ["fs", ["w"], "s", {"approx_deriv": {"no_disc": [], "excl": [], "split_by": [], "restarts": 2, "seed": 7}}]


def make_clustered(sc, rng):
    """Turn a scenario into one with such a term: rows sorted by series, covariates kept."""
    t = [x for x in sc["form"]["terms"] if x[0] not in ("ri", "rs", "fs")]
    c = [CLUSTERED[0], list(CLUSTERED[1]), CLUSTERED[2], {"approx_deriv": dict(CLUSTERED[3]["approx_deriv"])}]
    if rng.random() < 0.4:
        c[3]["approx_deriv"]["excl"] = ["x"] if any("x" in x[1] for x in t if x[0] == "f") else []
    sc["form"]["terms"] = t + [c]
    sc["keep_cov"] = True
    sc["data"].update(order="by_group", ns=rng.choice([8, 12, 15]))
    # Clustering knows no missing values
    sc["data"]["na"] = {k: v for k, v in sc["data"].get("na", {}).items() if k == "y"}
    if sc["files"].get("blank"):
        sc["files"]["blank"][1] = "y"
    sc["clustered"] = True


def gen_terms(rng, smooth=SMOOTH, linear=LINEAR, random_=RANDOM, need_pen=False):
    for _ in range(100):
        t = [["i"]]
        t += rng.choice(linear)
        sm = rng.choice(smooth)
        t += [list(x) for x in sm]
        t += rng.choice(random_)
        # identifiability: a non-centred by-smooth replaces intercept and factor main effect
        if any(x[0] == "f" and x[2].get("identifiable") is False for x in t):
            t = [x for x in t if x[0] not in ("i", "l")]
        # a binary smooth is not centred: it contains the factor's main effect
        if any(x[0] == "f" and "binary" in x[2] for x in t):
            t = [x for x in t if not (x[0] == "l" and "f" in x[1])]
        lin = [x[1] for x in t if x[0] == "l"]
        if any(lin.count(x) > 1 for x in lin):
            continue
        if any(x[0] == "l" and x[1] == ["k"] for x in t) and any(
            x[0] == "f" and x[1] == ["k"] for x in t
        ):
            continue
        if len(t) < 2:
            continue
        if need_pen and not any(x[0] in ("f", "ri", "rs", "fs") for x in t):
            continue
        return dict(terms=t, nk=rng.choice([5, 6, 8]), nkt=4)
    raise RuntimeError("no formula")


def build_terms(spec, levels=None):
    from mssm.src.python import terms as T

    out = []
    for t in spec["terms"]:
        if t[0] == "i":
            out.append(T.i())
        elif t[0] == "l":
            out.append(T.l(list(t[1])))
        elif t[0] == "f":
            kw = dict(t[2])
            if "binary" in kw:
                kw["binary"] = (kw["binary"][0], levels[kw["binary"][0]][kw["binary"][1]])
            if "pen_kwargs" in kw:
                kw["pen_kwargs"] = [dict(p) for p in kw["pen_kwargs"]]
            nk = spec["nk"] if len(t[1]) == 1 else [spec["nkt"]] * len(t[1])
            kw = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
            out.append(T.f(list(t[1]), nk=nk, **kw))
        elif t[0] == "ri":
            out.append(T.ri(t[1]))
        elif t[0] == "rs":
            out.append(T.rs(list(t[1]), t[2]))
        elif t[0] == "fs":
            kw = dict(t[3])
            if "by_subgroup" in kw:
                kw["by_subgroup"] = list(kw["by_subgroup"])
            if "approx_deriv" in kw:
                kw["approx_deriv"] = {k: (list(v) if isinstance(v, list) else v) for k, v in kw["approx_deriv"].items()}
            out.append(T.fs(list(t[1]), rf=t[2], nk=4, **kw))
        elif t[0] == "irf":
            out.append(T.irf(list(t[1]), **t[2]))
        else:
            raise KeyError(t[0])
    return out


def levels_of(df):
    return {c: sorted(df[c].dropna().unique()) for c in ("f", "s", "g")}


def shrink_terms(spec):
    out = []
    for j in range(len(spec["terms"])):
        if spec["terms"][j][0] == "i":
            continue
        t = spec["terms"][:j] + spec["terms"][j + 1 :]
        if len(t) >= 1:
            out.append(dict(spec, terms=t))
    return out


# The default re-parameterisation of tensor terms is not supported (and refused) for files
SMOOTH_MEM = SMOOTH + [
    [["f", ["x", "w"], {"te": True}]],
    [["f", ["x"], {}], ["f", ["w"], {}], ["f", ["x", "w"], {}]],
    [["f", ["x"], {"rp": 1}]],
]


# ------------------------------------------------------------------------------------ compare


def dense(a):
    if scp.sparse.issparse(a):
        return a.toarray()
    return np.asarray(a)


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = dense(a), dense(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
        return bool(np.all(a == b))
    with np.errstate(all="ignore"):
        sc = max(1.0, float(np.nanmax(np.abs(b)))) if b.size and np.any(np.isfinite(b)) else 1.0
        return bool(np.allclose(a, b, rtol=rtol, atol=atol * sc, equal_nan=True))


def diff(a, b):
    a, b = dense(a), dense(b)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    try:
        d = np.abs(a.astype(float) - b.astype(float))
        return f"max abs difference {np.nanmax(d):.3g} (scale {np.nanmax(np.abs(b)):.3g})"
    except Exception:
        return f"{a!r} vs {b!r}"


def require_close(sig, what, a, b, rtol=1e-6, atol=1e-8):
    if not close(a, b, rtol, atol):
        raise violation(sig, f"{what}: {diff(a, b)}")


def require_equal(sig, what, a, b):
    if scp.sparse.issparse(a) or scp.sparse.issparse(b) or isinstance(a, np.ndarray):
        a, b = dense(a), dense(b)
        ok = a.shape == b.shape and (
            np.array_equal(a, b)
            if a.dtype.kind in "OUSb"
            else np.array_equal(a, b, equal_nan=True)
        )
        if not ok:
            raise violation(sig, f"{what}: {diff(a, b)}")
    elif a != b:
        raise violation(sig, f"{what}: {a!r} vs {b!r}")


def exc_text(e):
    return f"{type(e).__name__}: {str(e)[:300]}"
