"""Spectra written to and read from a file."""
import itertools
import os
import tempfile
import numpy as np
import glass.user as U
from symxp.engine import Case

FUNCTIONS = ["glass.user.save_cls", "glass.user.load_cls"]
BOUNDS = "lists of 1 to 4 spectra of lengths 0 to 3 (every combination) with symbolic real or complex values; file names with and without suffix"
ASSUMPTIONS = ["an archive keeps the arrays saved under their names (a file in memory; replays use a real file)"]


class Archive:
    """files in memory"""

    def __init__(self, h):
        self.files = {}
        for n in ("savez", "savez_compressed"):
            h.xp.stubs[n] = self.save
        h.xp.stubs["load"] = self.load
        self.h = h

    @staticmethod
    def path(p):
        return os.fspath(p)

    def save(self, file, *args, **kw):
        p = self.path(file)
        if not p.endswith(".npz"):
            p += ".npz"
        d = {f"arr_{i}": a for i, a in enumerate(args)}
        d.update(kw)
        self.files[p] = {k: self.h.xp.asarray(v) + 0 for k, v in d.items() if k != "allow_pickle"}

    def load(self, file, *args, **kw):
        d = self.files.get(self.path(file))
        if d is None:
            raise FileNotFoundError(file)
        return Npz(d)


class Npz:
    def __init__(self, d):
        self.d, self.open, self.files = d, True, list(d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.open = False

    def __getitem__(self, k):
        if not self.open:
            raise ValueError("archive is closed")
        return self.d[k] + 0

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def trip(h, lens, kinds=(), suffix=True, tup=False, twice=False):
    cls = [h.arr(f"c{i}", n, -10, 10, dtype=complex if i in kinds else None) for i, n in enumerate(lens)]
    keep = [c + 0 for c in cls]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "cls" + (".npz" if suffix else ""))
        if h.sym:
            Archive(h)
        if twice:
            U.save_cls(p, [c + 1 for c in cls] + [h.arr("extra", 2)])
        U.save_cls(p, tuple(cls) if tup else cls)
        out = U.load_cls(p if suffix else p + ".npz")
        h.same(len(out), len(lens), "same number of spectra")
        for o, k, n in zip(out, keep, lens):
            h.same(tuple(o.shape), (n,), "same length")
            h.eq(o, k, "same values", rtol=1e-300, atol=1e-300)
        for c, k in zip(cls, keep):
            h.eq(c, k, "input unchanged")


def cases(tier):
    big = tier != "quick"
    cs = []
    for n in (1, 2, 3) + ((4,) if big else ()):
        for lens in itertools.product(range(4 if n < 3 else 3), repeat=n):
            cs.append(Case("trip-" + "-".join(map(str, lens)), trip, dict(lens=lens)))
    cs.append(Case("trip-many", trip, dict(lens=(3, 0, 2, 5, 1, 0, 0, 4))))
    cs.append(Case("trip-complex", trip, dict(lens=(2, 1, 3), kinds=(0, 1, 2))))
    cs.append(Case("trip-mixed", trip, dict(lens=(2, 1, 3), kinds=(1,))))
    cs.append(Case("trip-nosuffix", trip, dict(lens=(2, 3), suffix=False)))
    cs.append(Case("trip-tuple", trip, dict(lens=(2, 0, 3), tup=True)))
    cs.append(Case("trip-overwrite", trip, dict(lens=(2, 3), twice=True)))
    return cs
