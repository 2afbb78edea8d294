"""Simulated disk.

Files below the world's root directory go through these seams; everything else is untouched. The
bytes live in a real scratch directory (so pandas, numpy, scipy and zipfile run unchanged), but
every open, read, write, close, mkdir, listdir, stat, remove and rmdir is a seam operation: it can
fail (EIO, ENOSPC, EACCES, EMFILE), be cut short, or be the point at which the process dies.
"""

import builtins
import errno
import io
import os

from . import core
from .core import SimCrash
from .mpsim import make_exc

_real = {}


def _inside(path):
    w = core.current()
    if w is None or w.root is None or w.running is None:
        return None
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    a = p if p.startswith("/") else os.getcwd() + "/" + p
    a = os.path.normpath(a)
    if a == w.root or a.startswith(w.root + "/"):
        return a[len(w.root) :].lstrip("/") or "."
    return None


class SimRaw(io.FileIO):
    """A file descriptor of a simulated process."""

    def __init__(self, path, mode, rel):
        self._w = core.current()
        self._p = self._w.running
        self._rel = rel
        self._writing = "r" not in mode or "+" in mode
        super().__init__(path, mode)
        if self._writing:
            self._w.written[rel] = True

    def _gone(self):
        return self._p is not None and (self._p.dead or self._p.kill)

    def readinto(self, b):
        f = self._w.op("fread", self._rel) if self._w.running is not None else None
        if f is not None:
            raise make_exc(f.kind)
        return super().readinto(b)

    def readall(self):
        f = self._w.op("fread", self._rel) if self._w.running is not None else None
        if f is not None:
            raise make_exc(f.kind)
        return super().readall()

    def read(self, n=-1):
        f = self._w.op("fread", self._rel) if self._w.running is not None else None
        if f is not None:
            raise make_exc(f.kind)
        return super().read(n)

    def write(self, b):
        if self._gone():
            return len(b)  # Nothing a dead process does reaches the disk
        f = self._w.op("fwrite", self._rel) if self._w.running is not None else None
        if f is not None:
            part = bytes(b)[: len(b) // 2]
            if part:
                super().write(part)
            raise make_exc(f.kind)
        return super().write(b)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
          opener=None):
    rel = _inside(file)
    if rel is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = core.current()
    writing = any(c in mode for c in "wax+")
    f = w.op("open_w" if writing else "open_r", rel)
    if f is not None:
        raise make_exc(f.kind)
    binary = "b" in mode
    m = mode.replace("b", "").replace("t", "")
    raw = SimRaw(file, m, rel)
    if binary and buffering == 0:
        return raw
    if "+" in m:
        buf = io.BufferedRandom(raw)
    elif m[0] in "wax":
        buf = io.BufferedWriter(raw)
    else:
        buf = io.BufferedReader(raw)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    txt.mode = mode
    return txt


def _wrap(name, cls):
    real = getattr(os, name)
    _real[name] = real

    def fn(path=".", *a, **k):
        rel = _inside(path)
        if rel is not None:
            f = core.current().op(cls, rel)
            if f is not None:
                raise make_exc(f.kind)
        return real(path, *a, **k)

    fn.__name__ = name
    return fn


def _listdir(path="."):
    rel = _inside(path)
    if rel is None:
        return _real["listdir"](path)
    w = core.current()
    f = w.op("fdir", rel)
    if f is not None:
        raise make_exc(f.kind)
    # The order of a directory listing is the file system's business
    out = sorted(_real["listdir"](path))
    if len(out) > 1:
        k = w.dec.choose(len(out))
        out = out[k:] + out[:k]
    return out


def install():
    if _real:
        return
    _real["open"] = builtins.open
    _real["listdir"] = os.listdir
    builtins.open = _open
    io.open = _open
    os.mkdir = _wrap("mkdir", "fmkdir")
    os.remove = _wrap("remove", "fremove")
    os.unlink = _wrap("unlink", "fremove")
    os.rmdir = _wrap("rmdir", "frmdir")
    os.rename = _wrap("rename", "frename")
    os.replace = _wrap("replace", "frename")
    os.stat = _wrap("stat", "fstat")
    os.listdir = _listdir


def power_loss(w, rng, prefix=""):
    """Files written by the crashed process were never synced: each may be whole, cut or empty."""
    torn = 0
    for rel in sorted(w.written):
        if prefix and not rel.startswith(prefix):
            continue
        p = os.path.join(w.root, rel)
        if not os.path.isfile(p):
            continue
        c = rng.randrange(3)
        size = os.path.getsize(p)
        if c == 1 and size > 0:
            with _real["open"](p, "r+b") as fh:
                fh.truncate(rng.randrange(size))
            torn += 1
        elif c == 2:
            with _real["open"](p, "r+b") as fh:
                fh.truncate(0)
            torn += 1
    return torn
