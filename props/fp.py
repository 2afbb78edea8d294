"""Deep fingerprints of models, families, formulas and data, to see whether a call changed them."""

import hashlib

import numpy as np
import pandas as pd
import scipy as scp


def _h(b):
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def fp(obj, depth=12):
    """{path: digest} over the public state reachable from obj (functions and modules are opaque)."""
    out = {}
    _walk(obj, "", out, {}, depth)
    return out


def _walk(o, path, out, seen, depth):
    if o is None or isinstance(o, (bool, int, str, bytes, complex)):
        out[path] = repr(o)
        return
    if isinstance(o, float):
        out[path] = o.hex() if o == o else "nan"
        return
    if isinstance(o, np.generic):
        out[path] = repr(o)
        return
    if callable(o) and not hasattr(o, "__dict__"):
        return
    if isinstance(o, type) or type(o).__name__ in ("function", "method", "builtin_function_or_method", "module"):
        return
    if id(o) in seen:
        if isinstance(o, np.ndarray) and o.dtype != object:
            out[path] = f"arr{o.dtype}{o.shape}" + _h(np.ascontiguousarray(o).tobytes())
        else:
            out[path] = "->" + type(o).__name__
        return
    seen[id(o)] = (path, o)
    if depth == 0:
        return
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            out[path] = f"objarr{o.shape}"
            for j, v in enumerate(o.reshape(-1)):
                _walk(v, f"{path}[{j}]", out, seen, depth - 1)
        else:
            out[path] = f"arr{o.dtype}{o.shape}" + _h(np.ascontiguousarray(o).tobytes())
        return
    if scp.sparse.issparse(o):
        c = o.tocsc().copy()
        c.sum_duplicates()
        c.sort_indices()
        out[path] = (
            f"sp{o.shape}" + _h(c.data.tobytes()) + _h(np.asarray(c.indices, dtype=np.int64).tobytes())
            + _h(np.asarray(c.indptr, dtype=np.int64).tobytes())
        )
        return
    if isinstance(o, (pd.DataFrame, pd.Series)):
        d = o if isinstance(o, pd.DataFrame) else o.to_frame()
        out[path] = "df" + repr(list(d.columns)) + _h(pd.util.hash_pandas_object(d, index=True).values.tobytes())
        return
    if isinstance(o, dict):
        out[path] = f"dict{len(o)}"
        for k in o:
            _walk(o[k], f"{path}[{k!r}]", out, seen, depth - 1)
        return
    if isinstance(o, (list, tuple)):
        out[path] = f"{type(o).__name__}{len(o)}"
        for j, v in enumerate(o):
            _walk(v, f"{path}[{j}]", out, seen, depth - 1)
        return
    if isinstance(o, (set, frozenset)):
        out[path] = repr(sorted(map(repr, o)))
        return
    d = getattr(o, "__dict__", None)
    if d is not None:
        out[path] = type(o).__name__
        for k in d:
            if not k.startswith("_"):
                _walk(d[k], f"{path}.{k}", out, seen, depth - 1)
        return
    out[path] = type(o).__name__


def changed(a, b):
    """Paths of the first fingerprint at which the second holds something else."""
    return sorted(k for k in a if a[k] != b.get(k))
