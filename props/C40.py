"""Catalogues written piece by piece."""
import os
import tempfile
import numpy as np
import glass.user as U
from symxp.engine import Case
from .common import flat

try:
    import fitsio
except ImportError:
    fitsio = None

FUNCTIONS = ["glass.user.write_catalog", "glass.user._FitsWriter.write", "glass.user._FitsWriter._append"]
BOUNDS = ("histories of 1 to 4 writes, each symbolically one of: nothing, a table, named columns in either order, or a table and columns at once, of 0 to 2 rows each, "
          "with symbolic values, with and without extension name, ended normally or by an exception")
ASSUMPTIONS = ["the FITS library behaves like the model in this file (extensions in order of creation, case-insensitive names, a write at a row overwrites from that row and "
               "extends the table); replays use the real library on a scratch file"]
COLS = ("RA", "DEC")


class FakeTable:
    """structured array"""

    class _DT:
        def __init__(self, names):
            self.names = names
            self.fields = {n: None for n in names}

    def __init__(self, cols):
        self.cols = cols
        self.dtype = self._DT(tuple(cols))
        self.size = len(next(iter(cols.values())))
        self.shape = (self.size,)
        self.ndim = 1

    def __getitem__(self, k):
        return self.cols[k]

    def __len__(self):
        return self.size


class FakeHDU:
    def __init__(self, fits, num, name, names=None):
        self.fits, self.num, self.name = fits, num, name or ""
        self.names = names
        self.rows = {n: [] for n in names} if names is not None else None

    def get_extnum(self):
        return self.num

    def get_extname(self):
        return self.name

    def get_nrows(self):
        return len(self.rows[self.names[0]])

    def has_data(self):
        return self.rows is not None

    def get_colnames(self):
        return list(self.names)

    def _cols(self, data, names, columns=None):
        if isinstance(data, dict):
            return dict(data)
        if isinstance(data, (list, tuple)):
            names = columns if columns is not None else names
            if names is None:
                raise ValueError("you must send `columns` or `names` with a list of arrays")
            return dict(zip(names, data, strict=True))
        return {n: data[n] for n in data.dtype.names}

    def write(self, data, firstrow=0, columns=None, names=None, **kw):
        cols = self._cols(data, names, columns)
        ns = {len(v) if hasattr(v, "__len__") else 1 for v in cols.values()}
        if len(ns) != 1:
            raise ValueError("columns of different lengths")
        n = ns.pop()
        have = {c.lower(): c for c in self.names}
        total = self.get_nrows()
        end = max(total, firstrow + n)
        for c in self.names:
            self.rows[c] += [0.0] * (end - total)
        for c, v in cols.items():
            if c.lower() not in have:
                raise ValueError(f"column not found: {c}")
            for i in range(n):
                self.rows[have[c.lower()]][firstrow + i] = v[i] + 0

    def append(self, data, columns=None, names=None, **kw):
        self.write(data, firstrow=self.get_nrows(), columns=columns, names=names)


class FakeFITS:
    files = None

    def __init__(self, filename, mode="r", clobber=False, **kw):
        p = os.fspath(filename)
        if clobber or p not in FakeFITS.files:
            FakeFITS.files[p] = self
            self.hdus = []
        else:
            self.hdus = FakeFITS.files[p].hdus
        self.mode, self.closed = mode, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def _live(self):
        if self.closed:
            raise ValueError("file is closed")
        if self.mode != "rw":
            raise OSError("file is not writable")

    def write(self, data, extname=None, names=None, **kw):
        self._live()
        if data is None:
            self.hdus.append(FakeHDU(self, len(self.hdus), extname))
            return
        self.write_table(data, names=names, extname=extname)

    def write_table(self, data, names=None, extname=None, **kw):
        self._live()
        if not self.hdus:
            self.hdus.append(FakeHDU(self, 0, ""))
        h = FakeHDU(self, len(self.hdus), extname)
        cols = h._cols(data, names)
        h = FakeHDU(self, len(self.hdus), extname, list(cols))
        self.hdus.append(h)
        h.write(data, names=names)

    def create_table_hdu(self, data=None, names=None, extname=None, **kw):
        self._live()
        cols = FakeHDU(self, 0, "")._cols(data, names)
        self.hdus.append(FakeHDU(self, len(self.hdus), extname, list(cols)))

    def __len__(self):
        return len(self.hdus)

    def __iter__(self):
        return iter(self.hdus)

    def __getitem__(self, k):
        self._live()
        if isinstance(k, int):
            return self.hdus[k]
        for h in self.hdus:
            if h.name.lower() == k.lower() and h.name:
                return h
        raise OSError(f"extension not found: {k}")

    def __contains__(self, k):
        try:
            self[k]
            return True
        except Exception:
            return False


class Stop(Exception):
    pass


def table(h, cols):
    if h.sym:
        return FakeTable({k: v + 0 for k, v in cols.items()})
    n = len(next(iter(cols.values())))
    t = np.empty(n, dtype=[(k, float) for k in cols])
    for k, v in cols.items():
        t[k] = v
    return t


def history(h, nops, ext, stop=False, cols=COLS, many=False, stale=False):
    if fitsio is None:
        raise ImportError("fitsio")
    exp = {c: [] for c in cols}
    wrote = False
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "cat.fits")
        if h.sym:
            FakeFITS.files = {}
            h.stub(fitsio, "FITS", FakeFITS)
        if stale:
            with U.write_catalog(p, ext=ext) as out:
                out.write(**{c: h.arr(f"old{c}", 3) for c in cols})
        try:
            with U.write_catalog(p, ext=ext) as out:
                for k in range(nops):
                    op = pickint(h, f"op{k}", 0, 4)
                    n1 = pickint(h, f"n{k}", 0, 2) if not many else [3, 1, 4, 2][k % 4]

                    def block(tag, n):
                        return {c: h.arr(f"{tag}{k}{c}", n, -9, 9) for c in cols}
                    args, kw = (), {}
                    if op in (1, 4):
                        b = block("t", n1)
                        args = (table(h, b),)
                        for c in cols:
                            exp[c] += flat(h, b[c] + 0)
                        wrote = True
                    if op in (2, 3, 4):
                        b = block("c", (n1 + 1) % 3 if op == 4 else n1)
                        kw = dict(b if op != 3 else reversed(list(b.items())))
                        for c in cols:
                            exp[c] += flat(h, b[c] + 0)
                        wrote = True
                    h.same(out.write(*args, **kw), None, "write returns nothing")
                if stop:
                    raise Stop()
        except Stop:
            h.fact(stop, "exception is passed on")
        if h.sym:
            f = FakeFITS.files[p]
            h.fact(f.closed, "file is closed")
            hdus = [x for x in f.hdus if x.rows is not None]
            got = [(x.name, x.names, x.rows) for x in hdus]
            num = [x.num for x in hdus]
        else:
            with fitsio.FITS(p) as f:
                num = [i for i in range(1, len(f)) if f[i].get_exttype() == "BINARY_TBL"]
                got = [(f[i].get_extname(), f[i].get_colnames(), {c: list(f[i].read()[c]) if f[i].get_nrows() else [] for c in f[i].get_colnames()}) for i in num]
        h.same(len(got), 1 if wrote else 0, "one table")
        if len(got) != 1:
            return
        name, names, rows = got[0]
        h.same(name, ext or "", "name of the extension")
        h.same(num, [1], "first extension")
        h.same(sorted(names), sorted(cols), "column names")
        if sorted(names) != sorted(cols):
            return
        for c in cols:
            h.same(len(rows[c]), len(exp[c]), "number of rows of all writes")
            for a, b in zip(rows[c], exp[c]):
                h.eq(a, b, "rows of all writes in order", rtol=1e-300, atol=1e-300)
            if not exp[c]:
                h.fact(True, "no rows")


def pickint(h, name, lo, hi):
    x = h.int(name, lo, hi)
    for v in range(lo, hi):
        if h.branch(x == v):
            return v
    return hi


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=150, max_paths=4000)
    cs = []
    for n in (1, 2, 3) if big else (1, 2):
        for ext in (None, "CATALOG"):
            for stop in (False, True):
                cs.append(Case(f"history-{n}-{ext}-{stop}", history, dict(nops=n, ext=ext, stop=stop), **o))
    for n in (3, 4):
        for ext in (None, "cat"):
            cs.append(Case(f"rows-{n}-{ext}", history, dict(nops=n, ext=ext, many=True), **o))
    for ext in (None, "CATALOG"):
        cs.append(Case(f"onecol-{ext}", history, dict(nops=2, ext=ext, cols=("Z",)), **o))
        cs.append(Case(f"threecols-{ext}", history, dict(nops=2, ext=ext, cols=("RA", "DEC", "Z_TRUE"), many=True), **o))
        cs.append(Case(f"stale-{ext}", history, dict(nops=1, ext=ext, stale=True), **o))
    return cs
