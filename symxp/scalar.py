"""Symbolic scalars: rational functions over path variables, with a path
context that forks on undetermined conditions (re-execution style) and asks
z3 (cvc5 as second opinion) about feasibility and entailment.
"""
from __future__ import annotations

import math as _m
import time
from fractions import Fraction

import z3

from . import poly as P

INF = float("inf")
NAN = float("nan")


class Unsupported(BaseException):
    """the engine cannot encode this; the run is inconclusive"""


class PathEnd(BaseException):
    """this path is finished (assumption violated)"""


class Budget(BaseException):
    """time or path budget of the case is used up"""


CUR = None  # current path context


def cur():
    if CUR is None:
        raise RuntimeError("no symbolic context")
    return CUR


def set_ctx(ctx):
    global CUR
    CUR = ctx


# --------------------------------------------------------------------------
# variables and context

class Var:
    __slots__ = ("idx", "name", "sort", "z", "lo", "hi", "lo_open", "hi_open", "kind", "meta")

    def __init__(self, idx, name, sort, lo, hi, kind, meta, lo_open=False, hi_open=False):
        self.idx = idx
        self.name = name
        self.sort = sort
        self.z = z3.Int(name) if sort == "int" else z3.Real(name)
        self.lo, self.hi = lo, hi
        self.lo_open, self.hi_open = lo_open, hi_open
        self.kind = kind
        self.meta = meta


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branches = 0
        self.normal_form = 0
        self.cvc5 = 0
        self.cached = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()
QCACHE: dict = {}


class Ctx:
    """state of one execution path"""

    def __init__(self, prefix=(), opts=None):
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.vars = []
        self.byname = {}
        self.rules = {}
        self.defs = {}       # var idx -> list of (vars, z3)
        self.pairs = []      # (vars, z3)
        self.pc = []         # (vars, z3)
        self.conds = []      # (condition, truth value)
        self.decided = {}
        self.factors = []    # Poly
        self.fpos = []       # known positive?
        self.fkey = {}
        self.atoms = {}      # fn -> list of (args, var idx)
        self.counter = {}
        self.zc = {}
        self.fpk = {}        # rounded square root y -> integer k with k <= 2y < k + 1
        self.opts = opts or {}
        self.deadline = self.opts.get("deadline")
        self.feas_ms = self.opts.get("feas_ms", 3000)
        self.unknown_branches = 0
        self.stub_notes = set()

    # -- variables
    def new_var(self, name, sort="real", lo=None, hi=None, kind="input", meta=None,
                lo_open=False, hi_open=False):
        if name in self.byname:
            raise RuntimeError(f"duplicate variable {name}")
        v = Var(len(self.vars), name, sort, _fr(lo), _fr(hi), kind, meta, lo_open, hi_open)
        self.vars.append(v)
        self.byname[name] = v
        d = []
        if sort == "int":
            # integer bounds are stated over integers
            if v.lo is not None:
                v.lo, v.lo_open = Fraction(_m.floor(v.lo) + 1 if lo_open else _m.ceil(v.lo)), False
                d.append((frozenset([v.idx]), v.z >= z3.IntVal(int(v.lo))))
            if v.hi is not None:
                v.hi, v.hi_open = Fraction(_m.ceil(v.hi) - 1 if hi_open else _m.floor(v.hi)), False
                d.append((frozenset([v.idx]), v.z <= z3.IntVal(int(v.hi))))
        else:
            if v.lo is not None:
                d.append((frozenset([v.idx]), v.z > zq(v.lo) if lo_open else v.z >= zq(v.lo)))
            if v.hi is not None:
                d.append((frozenset([v.idx]), v.z < zq(v.hi) if hi_open else v.z <= zq(v.hi)))
        self.defs[v.idx] = d
        return v

    def fresh(self, base, **kw):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return self.new_var(f"{base}!{k}", **kw)

    def S(self, v):
        return S(P.var(v.idx), ())

    # -- z3 conversion
    def z(self, p):
        k = P.key(p)
        r = self.zc.get(k)
        if r is not None:
            return r
        isint = all(isinstance(c, int) or c.denominator == 1 for c in p.values()) and all(
            self.vars[v].sort == "int" for m in p for v, _ in m)
        terms = []
        for m, c in sorted(p.items(), key=lambda t: t[0]):
            fs = []
            for v, e in m:
                z = self.vars[v].z
                if not isint and self.vars[v].sort == "int":
                    z = z3.ToReal(z)
                fs.extend([z] * e)
            cz = z3.IntVal(int(c)) if isint else zq(c)
            if not fs:
                terms.append(cz)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else cz * t)
        if not terms:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        self.zc[k] = r
        return r

    # -- interval of a polynomial from variable bounds: (lo, hi, lo_open, hi_open)
    def interval(self, p):
        lo, hi = Fraction(0), Fraction(0)
        lo_o = hi_o = False
        for m, c in p.items():
            a, b = Fraction(1), Fraction(1)
            ao = bo = False
            for v, e in m:
                w = self.vars[v]
                l, h, lo_, ho_ = w.lo, w.hi, w.lo_open, w.hi_open
                if e % 2 == 0:
                    # even power
                    if l is not None and l >= 0:
                        l, h = l ** e, (None if h is None else h ** e)
                    elif h is not None and h <= 0:
                        l, h, lo_, ho_ = h ** e, (None if l is None else l ** e), ho_, lo_
                    else:
                        if l is None or h is None:
                            l, h = Fraction(0), None
                        else:
                            hh = max(-l, h) ** e
                            ho_ = (lo_ if -l > h else ho_ if h > -l else (lo_ and ho_))
                            l, h = Fraction(0), hh
                        lo_ = False
                else:
                    l = None if l is None else l ** e
                    h = None if h is None else h ** e
                a, b, ao, bo = _imul(a, b, ao, bo, l, h, lo_, ho_)
            if c < 0:
                a, b, ao, bo = b, a, bo, ao
            a = None if a is None else a * c
            b = None if b is None else b * c
            lo = None if (lo is None or a is None) else lo + a
            hi = None if (hi is None or b is None) else hi + b
            lo_o = lo_o or ao
            hi_o = hi_o or bo
            if lo is None and hi is None:
                return None, None, True, True
        return lo, hi, lo_o, hi_o

    # -- solving
    def relevant(self, vs):
        W = set(vs)
        out = []
        todo = list(W)
        pcs = [(set(v), z) for v, z in self.pc]
        used = [False] * len(pcs)
        done_defs = set()
        while True:
            changed = False
            while todo:
                v = todo.pop()
                if v in done_defs:
                    continue
                done_defs.add(v)
                for dv, dz in self.defs.get(v, ()):
                    out.append(dz)
                    for w in dv:
                        if w not in W:
                            W.add(w)
                            todo.append(w)
            for i, (pv, pz) in enumerate(pcs):
                if not used[i] and pv & W:
                    used[i] = True
                    out.append(pz)
                    for w in pv:
                        if w not in W:
                            W.add(w)
                            todo.append(w)
                    changed = True
            if not changed and not todo:
                break
        for pv, pz in self.pairs:
            if pv <= W:
                out.append(pz)
        return out, W

    def query(self, goals, vs, timeout_ms=None, model=False, use_cvc5=False):
        """sat/unsat/unknown of goals under the relevant path constraints"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("deadline")
        rel, W = self.relevant(vs)
        first = bool(self.opts.get("cvc5"))
        return solve(rel + list(goals), timeout_ms or self.feas_ms, model=model, use_cvc5=use_cvc5 or first, cvc5_first=first)

    def feasible_all(self, timeout_ms=10000):
        vs = set(range(len(self.vars)))
        return self.query([], vs, timeout_ms, model=True)

    # -- path decisions
    def add_pc(self, b, truth=True):
        """b: SB"""
        z = b.z if truth else z3.Not(b.z)
        self.pc.append((b.vs, z))
        self.conds.append((b, truth))
        self.decided[b.key] = truth
        self.decided[_negkey(b.key)] = not truth
        self._learn(b, truth)

    def _learn(self, b, truth):
        """tighten variable bounds from single-variable linear literals"""
        k = b.key
        if k[0] == "and" and truth:
            for c in b.parts:
                self.decided[c.key] = True
                self.decided[_negkey(c.key)] = False
                self._learn(c, True)
            return
        if k[0] == "or" and not truth:
            for c in b.parts:
                self.decided[c.key] = False
                self.decided[_negkey(c.key)] = True
                self._learn(c, False)
            return
        if k[0] not in ("lt", "le", "eq"):
            return
        p = b.p
        op = k[0]
        if not truth:
            if op == "eq":
                return
            p = P.neg(p)
            op = "le" if op == "lt" else "lt"
        # p op 0 ; p = c*v + d
        vs = P.variables(p)
        if len(vs) != 1 or P.degree(p) != 1:
            return
        v = self.vars[next(iter(vs))]
        c = Fraction(p[((v.idx, 1),)])
        d = Fraction(p.get((), 0))
        t = -d / c
        op_open = op == "lt"
        if op == "eq":
            v.lo = v.hi = t
            v.lo_open = v.hi_open = False
        elif c > 0:
            if v.hi is None or t < v.hi or (t == v.hi and op_open):
                v.hi, v.hi_open = t, op_open
        else:
            if v.lo is None or t > v.lo or (t == v.lo and op_open):
                v.lo, v.lo_open = t, op_open

    def decide(self, b):
        if b is True or b is False:
            return b
        if not isinstance(b, SB):
            return bool(b)
        r = self.decided.get(b.key)
        if r is not None:
            return r
        if b.key[0] in ("lt", "le", "eq"):
            # bounds may have been tightened since the literal was built
            c = _cmp0(b.key[0], b.p, self)
            if c is not None:
                self.decided[b.key] = c
                self.decided[_negkey(b.key)] = not c
                return c
        elif b.key[0] in ("and", "or"):
            vals = [self.decided.get(c.key) for c in b.parts]
            if b.key[0] == "and":
                if False in vals:
                    return False
                if all(v is True for v in vals):
                    return True
            else:
                if True in vals:
                    return True
                if all(v is False for v in vals):
                    return False
        pos = len(self.trace)
        if pos < len(self.prefix):
            e = self.prefix[pos]
            if e[0] != "b":
                raise RuntimeError("non-deterministic replay of path prefix")
            self.trace.append(e)
            self.add_pc(b, e[1])
            return e[1]
        STATS.branches += 1
        rt = self.query([b.z], b.vs)[0]
        if rt == "unsat":
            self.trace.append(("b", False))
            self.add_pc(b, False)
            return False
        rf = self.query([z3.Not(b.z)], b.vs)[0]
        if rf == "unsat":
            self.trace.append(("b", True))
            self.add_pc(b, True)
            return True
        if "unknown" in (rt, rf):
            self.unknown_branches += 1
        first = bool(self.opts.get("first", True))
        self.alternatives.append(self.trace + [("b", not first)])
        self.trace.append(("b", first))
        self.add_pc(b, first)
        return first

    def concretize(self, s):
        """integer value of an integer S, forking over feasible values"""
        while True:
            if P.is_const(s.n) and not s.d:
                return int(P.const_value(s.n))
            lo, hi, lo_o, hi_o = self.interval(s.n)
            if lo is not None and lo == hi and not s.d:
                return int(lo)
            pos = len(self.trace)
            if pos < len(self.prefix):
                e = self.prefix[pos]
                if e[0] != "v":
                    raise RuntimeError("non-deterministic replay of path prefix")
                self.trace.append(e)
                b = e_eq(s, e[1])
                if b is True or b is False:
                    if b == e[2]:
                        if b:
                            return e[1]
                        continue
                    raise PathEnd()
                self.add_pc(b, e[2])
                if e[2]:
                    return e[1]
                continue
            zs = self.z(s.n)
            r, mod = self.query([], P.variables(s.n), model=True)
            if r == "unsat":
                raise PathEnd()
            if r != "sat":
                raise Unsupported("cannot concretise: solver unknown")
            v = mod.eval(zs, model_completion=True)
            v = _zval(v)
            v = int(v)
            b = e_eq(s, v)
            if b is True:
                return v
            self.pc.append((b.vs, z3.Not(b.z)))
            r2 = self.query([], b.vs)[0]
            self.pc.pop()
            if r2 != "unsat":
                self.alternatives.append(self.trace + [("v", v, False)])
            self.trace.append(("v", v, True))
            self.add_pc(b, True)
            STATS.branches += 1
            if len(self.trace) > 4000:
                raise Budget("path too long")
            return v

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathEnd()
        if self.decided.get(b.key) is True:
            return
        if self.decided.get(b.key) is False:
            raise PathEnd()
        self.add_pc(b, True)

    def check_feasible(self):
        """end the path if its constraints are unsatisfiable"""
        if self.feasible_all()[0] == "unsat":
            raise PathEnd()

    # -- denominators
    def factor(self, p):
        """register a primitive polynomial as denominator factor"""
        k = P.key(p)
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(p)
            lo, hi, lo_o, hi_o = self.interval(p)
            self.fpos.append(lo is not None and (lo > 0 or (lo == 0 and lo_o)))
            self.fkey[k] = f
        elif not self.fpos[f]:
            lo, hi, lo_o, hi_o = self.interval(p)
            self.fpos[f] = lo is not None and (lo > 0 or (lo == 0 and lo_o))
        return f

    def factor_positive(self, f):
        if self.fpos[f]:
            return True
        p = self.factors[f]
        b = cmp0("lt", P.neg(p))
        if b is True:
            self.fpos[f] = True
            return True
        if isinstance(b, SB) and self.decided.get(b.key) is True:
            self.fpos[f] = True
            return True
        return False


def _imul(a, b, ao, bo, l, h, lo_, ho_):
    # product of intervals [a,b] x [l,h], None = infinite
    if a is not None and a >= 0 and l is not None and l >= 0:
        lo = a * l
        loo = (ao and l != 0) or (lo_ and a != 0) or (ao and lo_) if lo != 0 or True else False
        # lower end attained unless the attaining ends are open
        if a == 0 and l == 0:
            loo = ao and lo_
        elif a == 0:
            loo = ao
        elif l == 0:
            loo = lo_
        else:
            loo = ao or lo_
        if b is None or h is None:
            return lo, None, loo, True
        return lo, b * h, loo, bo or ho_
    cands = []
    for x, xo in ((a, ao), (b, bo)):
        for y, yo in ((l, lo_), (h, ho_)):
            cands.append((x, xo, y, yo))
    if a is None or b is None or l is None or h is None:
        # sign-definite shortcuts
        if (b is not None and b <= 0) and (h is not None and h <= 0):
            r = _imul(-b, None if a is None else -a, bo, ao, -h, None if l is None else -l, ho_, lo_)
            return r
        if (a is not None and a >= 0) and (h is not None and h <= 0):
            r = _imul(a, b, ao, bo, -h, None if l is None else -l, ho_, lo_)
            return (None if r[1] is None else -r[1], -r[0], r[3], r[2])
        if (b is not None and b <= 0) and (l is not None and l >= 0):
            r = _imul(-b, None if a is None else -a, bo, ao, l, h, lo_, ho_)
            return (None if r[1] is None else -r[1], -r[0], r[3], r[2])
        return None, None, True, True
    vals = [(x * y, (xo and y != 0) or (yo and x != 0) or (xo and yo)) for x, xo, y, yo in cands]
    lo = min(v for v, _ in vals)
    hi = max(v for v, _ in vals)
    loo = all(o for v, o in vals if v == lo)
    hio = all(o for v, o in vals if v == hi)
    # zero inside an interval is attained in the interior
    return lo, hi, loo and lo != 0, hio and hi != 0


def _fr(x):
    if x is None:
        return None
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


def zq(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"cannot read model value {v}")


def solve(assertions, timeout_ms, model=False, use_cvc5=False, cvc5_first=False):
    t0 = time.time()
    ck = None
    if not model:
        ck = frozenset(a.get_id() for a in assertions)
        hit = QCACHE.get(ck)
        if hit is not None:
            STATS.cached += 1
            return hit[0], None
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*assertions)
    if cvc5_first:
        # nonlinear integer queries: a short z3 attempt, then cvc5
        s.set("timeout", 300)
        r = s.check()
        if r == z3.unknown and cvc5_check(s, timeout_ms) == "unsat":
            r = z3.unsat
        elif r == z3.unknown:
            s.set("timeout", int(timeout_ms))
            r = s.check()
        use_cvc5 = False
    else:
        r = s.check()
    res = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
    mod = s.model() if (res == "sat" and model) else None
    if res == "unknown":
        # the nonlinear tactic on its own sometimes succeeds
        try:
            t = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "nlsat").solver()
            t.set("timeout", int(timeout_ms))
            t.add(*assertions)
            r = t.check()
            res = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
            mod = t.model() if (res == "sat" and model) else None
        except z3.Z3Exception:
            res = "unknown"
    if res == "unknown" and use_cvc5:
        res = cvc5_check(s, timeout_ms)
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    setattr(STATS, res, getattr(STATS, res) + 1)
    if ck is not None and res != "unknown":
        QCACHE[ck] = (res, assertions)   # keep the ASTs alive so that ids stay valid
        if len(QCACHE) > 20000:
            QCACHE.clear()
    return res, mod


def cvc5_check(solver, timeout_ms):
    """second opinion through SMT-LIB text; only unsat is used"""
    try:
        import cvc5
    except Exception:
        return "unknown"
    try:
        STATS.cvc5 += 1
        txt = solver.to_smt2()
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption("tlimit-per", str(int(timeout_ms)))
        s.setLogic("ALL")
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(s, sm)
        if "error" in out:
            return "unknown"
        if "unsat" in out:
            return "unsat"
    except Exception:
        pass
    return "unknown"


# --------------------------------------------------------------------------
# booleans

class SB:
    """symbolic boolean"""
    __slots__ = ("z", "key", "vs", "p", "parts")

    def __init__(self, z, key, vs, p=None, parts=None):
        self.z = z
        self.key = key
        self.vs = vs
        self.p = p
        self.parts = parts

    def __bool__(self):
        return cur().decide(self)

    def __and__(self, o):
        return e_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return e_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return e_not(self)

    def __xor__(self, o):
        return e_xor(self, o)
    __rxor__ = __xor__

    def __eq__(self, o):
        return e_not(e_xor(self, o))

    def __ne__(self, o):
        return e_xor(self, o)

    __hash__ = None

    # arithmetic with booleans as 0/1 forces a decision
    def _num(self):
        return int(bool(self))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __index__(self): return self._num()
    def __int__(self): return self._num()
    def __repr__(self): return f"SB({self.z})"


def _negkey(k):
    if k[0] == "lt":
        return ("le", _nk(k[1]))
    if k[0] == "le":
        return ("lt", _nk(k[1]))
    if k[0] == "not":
        return k[1]
    return ("not", k)


def _nk(fs):
    return frozenset((m, -c) for m, c in fs)


def _poscanon(p):
    """divide by positive content"""
    q, c = P.primitive(p)
    return q if c > 0 else P.neg(q)


def _cmp0(op, p, ctx):
    lo, hi, lo_o, hi_o = ctx.interval(p)
    if op == "lt":
        if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "le":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
            return False
    else:
        if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
            return False
        if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
            return False
        if lo is not None and hi is not None and lo == hi == 0:
            return True
    return None


def cmp0(op, p):
    """literal p op 0 for op in lt, le, eq"""
    if P.is_const(p):
        c = P.const_value(p)
        return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
    ctx = cur()
    r = _cmp0(op, p, ctx)
    if r is not None:
        return r
    if op == "eq":
        p, _ = P.primitive(p)
    else:
        p = _poscanon(p)
    k = (op, P.key(p))
    d = ctx.decided.get(k)
    if d is not None:
        return d
    z = ctx.z(p)
    z = {"lt": z < 0, "le": z <= 0, "eq": z == 0}[op]
    return SB(z, k, frozenset(P.variables(p)), p)


def e_not(a):
    if isinstance(a, SB):
        k = a.key
        if k[0] == "lt":
            return cmp0("le", P.neg(a.p))
        if k[0] == "le":
            return cmp0("lt", P.neg(a.p))
        if k[0] == "not":
            return a.parts[0]
        return SB(z3.Not(a.z), ("not", k), a.vs, None, [a])
    return not a


def _bool(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, S):
        return e_ne(x, 0)
    if isinstance(x, SC):
        return e_or(e_ne(x.re, 0), e_ne(x.im, 0))
    return bool(x)


def e_and(a, b):
    a, b = _bool(a), _bool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a.key == b.key:
        return a
    ctx = cur()
    k = ("and", frozenset([a.key, b.key]))
    d = ctx.decided.get(k)
    if d is not None:
        return d
    return SB(z3.And(a.z, b.z), k, a.vs | b.vs, None, [a, b])


def e_or(a, b):
    a, b = _bool(a), _bool(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a.key == b.key:
        return a
    ctx = cur()
    k = ("or", frozenset([a.key, b.key]))
    d = ctx.decided.get(k)
    if d is not None:
        return d
    return SB(z3.Or(a.z, b.z), k, a.vs | b.vs, None, [a, b])


def e_xor(a, b):
    a, b = _bool(a), _bool(b)
    if isinstance(a, bool):
        return e_not(b) if a else b
    if isinstance(b, bool):
        return e_not(a) if b else a
    return e_or(e_and(a, e_not(b)), e_and(e_not(a), b))


# --------------------------------------------------------------------------
# real scalars: numerator polynomial over product of factors

def _merge_den(a, b):
    """lcm of two factor tuples and cofactors"""
    if a == b:
        return a, (), ()
    da, db = dict(a), dict(b)
    l = {}
    ca, cb = [], []
    for f in set(da) | set(db):
        ea, eb = da.get(f, 0), db.get(f, 0)
        m = max(ea, eb)
        l[f] = m
        if m > ea:
            ca.append((f, m - ea))
        if m > eb:
            cb.append((f, m - eb))
    return tuple(sorted(l.items())), tuple(ca), tuple(cb)


def _fpoly(ctx, fs):
    r = {(): 1}
    for f, e in fs:
        r = P.mul(r, P.power(ctx.factors[f], e, ctx.rules), ctx.rules)
    return r


def _mk(n, d):
    """normalise n/d: cancel factors"""
    if not n:
        return S({}, ())
    if d:
        ctx = cur()
        nd = []
        for f, e in d:
            fp = ctx.factors[f]
            while e > 0:
                if len(fp) == 1:
                    (m, c), = fp.items()
                    v = m[0][0]
                    if P.has_mono(n, v):
                        n = P.div_mono(n, ((v, 1),))
                        e -= 1
                        continue
                    break
                if len(n) >= len(fp) and len(n) * len(fp) <= 40000:
                    q = P.exact_div(n, fp)
                    if q is not None:
                        n = q
                        e -= 1
                        continue
                break
            if e:
                nd.append((f, e))
        d = tuple(nd)
    return S(n, d)


class S:
    """symbolic real (or integer) scalar"""
    __slots__ = ("n", "d")
    __array_ufunc__ = None

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # -- helpers
    def is_const(self):
        return not self.d and P.is_const(self.n)

    def is_int(self):
        if self.d:
            return False
        ctx = cur()
        for m, c in self.n.items():
            if not isinstance(c, int) and c.denominator != 1:
                return False
            for v, _ in m:
                if ctx.vars[v].sort != "int":
                    return False
        return True

    def vars(self):
        ctx = cur()
        r = P.variables(self.n)
        for f, _ in self.d:
            r |= P.variables(ctx.factors[f])
        return r

    def simple(self):
        """python number if constant"""
        if self.is_const():
            return Fraction(P.const_value(self.n))
        return self

    def den(self):
        return _fpoly(cur(), self.d)

    def __repr__(self):
        return "S(" + show(self) + ")"

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            return o
        if isinstance(o, SC):
            return o + self
        if self.d == o.d:
            return out(_mk(P.add(self.n, o.n), self.d))
        ctx = cur()
        l, ca, cb = _merge_den(self.d, o.d)
        n1 = P.mul(self.n, _fpoly(ctx, ca), ctx.rules) if ca else self.n
        n2 = P.mul(o.n, _fpoly(ctx, cb), ctx.rules) if cb else o.n
        return out(_mk(P.add(n1, n2), l))
    __radd__ = __add__

    def __neg__(self):
        return S(P.neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            return _mul_special(self, o)
        if isinstance(o, SC):
            return o * self
        ctx = cur()
        if self.d or o.d:
            dd = {}
            for f, e in self.d + o.d:
                dd[f] = dd.get(f, 0) + e
            # cancel before multiplying
            a = _mk(self.n, o.d)
            b = _mk(o.n, self.d)
            dd = {}
            for f, e in a.d + b.d:
                dd[f] = dd.get(f, 0) + e
            n = P.mul(a.n, b.n, ctx.rules)
            return out(_mk(n, tuple(sorted(dd.items()))) if ctx.rules else S(n, tuple(sorted(dd.items()))) if n else S({}, ()))
        return out(S(P.mul(self.n, o.n, ctx.rules), ()))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            return NAN if o != o else Fraction(0)
        if isinstance(o, SC):
            return SC(self, Fraction(0)) / o
        return _div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return NAN
            return _mul_special(self, o)
        if isinstance(o, SC):
            return o / self
        return _div(o, self)

    def __floordiv__(self, o):
        return e_floor(self / o)

    def __rfloordiv__(self, o):
        return e_floor(o / self)

    def __mod__(self, o):
        return self - e_floor(self / o) * o

    def __rmod__(self, o):
        return o - e_floor(o / self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        return e_pow(self, o)

    def __rpow__(self, o):
        return e_pow(o, self)

    def __abs__(self):
        return e_abs(self)

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round with digits")
        return e_round(self)

    def __floor__(self):
        return e_floor(self)

    def __ceil__(self):
        return -e_floor(-self)

    def __trunc__(self):
        return e_trunc(self)

    # -- comparison
    def __lt__(self, o): return e_lt(self, o)
    def __le__(self, o): return e_le(self, o)
    def __gt__(self, o): return e_lt(o, self)
    def __ge__(self, o): return e_le(o, self)
    def __eq__(self, o): return e_eq(self, o)
    def __ne__(self, o): return e_ne(self, o)
    __hash__ = None

    def __bool__(self):
        return cur().decide(e_ne(self, 0))

    def __index__(self):
        if not self.is_int():
            raise TypeError("non-integer symbolic value used as index")
        return cur().concretize(self)

    def __int__(self):
        t = e_trunc(self)
        return t if isinstance(t, int) else cur().concretize(t)

    def __float__(self):
        raise Unsupported("float() of symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of symbolic value")

    # numpy object-array protocol helpers
    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Fraction(0)

    def sqrt(self): return e_sqrt(self)
    def item(self): return self
    def copy(self): return self
    def is_integer(self): return self == e_floor(self)

    @property
    def dtype(self):
        import numpy as np
        return np.dtype("int64") if self.is_int() else np.dtype("float64")
    shape = ()
    ndim = 0
    size = 1


def out(s):
    """constants leave as Fractions"""
    if isinstance(s, S) and not s.d and P.is_const(s.n):
        c = P.const_value(s.n)
        return c if isinstance(c, Fraction) else Fraction(c)
    return s


def lift(o):
    """convert to S/SC, or float for inf/nan; NotImplemented for unknown"""
    if isinstance(o, (S, SC)):
        return o
    if isinstance(o, bool):
        return S(P.const(int(o)), ())
    if isinstance(o, int):
        return S(P.const(o), ())
    if isinstance(o, Fraction):
        return S(P.const(o if o.denominator != 1 else o.numerator), ())
    if isinstance(o, float):
        if o != o or o in (INF, -INF):
            return float(o)
        f = Fraction(repr(float(o)))
        return S(P.const(f if f.denominator != 1 else f.numerator), ())
    if isinstance(o, complex):
        return SC(num(o.real), num(o.imag))
    if isinstance(o, SB):
        return S(P.const(int(bool(o))), ())
    t = type(o)
    if t.__module__ == "numpy":
        import numpy as np
        if isinstance(o, np.bool_):
            return S(P.const(int(o)), ())
        if isinstance(o, np.integer):
            return S(P.const(int(o)), ())
        if isinstance(o, np.floating):
            return lift(float(o))
        if isinstance(o, np.complexfloating):
            return lift(complex(o))
    return NotImplemented


def num(o):
    """python number -> element (Fraction, int, S, float special, SC)"""
    if isinstance(o, (S, SC, SB, Fraction)):
        return o
    if isinstance(o, bool):
        return o
    if isinstance(o, int):
        return o
    if isinstance(o, float):
        if o != o or o in (INF, -INF):
            return float(o)
        return Fraction(repr(float(o)))
    if isinstance(o, complex):
        return SC(num(o.real), num(o.imag))
    r = lift(o)
    if r is NotImplemented:
        raise Unsupported(f"cannot lift {type(o)}")
    return out(r) if not isinstance(r, float) else r


def _mul_special(s, o):
    if o != o:
        return NAN
    if bool(e_eq(s, 0)):
        return NAN
    return o if bool(e_lt(0, s)) else -o


def _div(a, b):
    """a / b for S operands; forks on b == 0"""
    ctx = cur()
    if P.is_const(b.n) and b.n:
        c = P.const_value(b.n)
        r = S(P.scale(a.n, Fraction(1) / c), a.d)
        if b.d:
            return r * S(_fpoly(ctx, b.d), ())
        return out(r)
    if not b.n or bool(cmp0("eq", b.n)):
        # division by zero
        if not a.n or bool(cmp0("eq", a.n)):
            return NAN
        return INF if bool(e_lt(0, a)) else -INF
    # a.n/a.d * b.d/b.n
    n, c = P.primitive(b.n)
    facs = {}
    cm = P.common_mono(n)
    for v, e in cm:
        facs[ctx.factor(P.var(v))] = e
    rest = P.div_mono(n, cm)
    sgn = 1
    if not P.is_const(rest):
        rest, c2 = P.primitive(rest)
        c = c * c2
        b2 = cmp0("lt", rest)
        if b2 is True:
            rest = P.neg(rest)
            sgn = -1
        facs[ctx.factor(rest)] = 1
    else:
        c = c * P.const_value(rest)
    inv = S({(): Fraction(sgn) / c}, tuple(sorted(facs.items())))
    r = a * inv
    if b.d:
        r = r * S(_fpoly(ctx, b.d), ())
    return r


def _signpoly(s):
    """polynomial with the sign of s (up to positive factors)"""
    ctx = cur()
    p = s.n
    for f, e in s.d:
        if e % 2 and not ctx.factor_positive(f):
            p = P.mul(p, ctx.factors[f], ctx.rules)
    return p


# --------------------------------------------------------------------------
# element operations

def _isnanf(x):
    return isinstance(x, float) and x != x


def e_lt(a, b):
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        if _isnanf(a) or _isnanf(b):
            return False
        if isinstance(a, float):
            if isinstance(b, float):
                return a < b
            return a < 0
        return b > 0
    if isinstance(a, SC) or isinstance(b, SC):
        raise TypeError("'<' not supported for complex")
    return cmp0("lt", _signpoly_d(a, b))


def e_le(a, b):
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        if _isnanf(a) or _isnanf(b):
            return False
        if isinstance(a, float):
            if isinstance(b, float):
                return a <= b
            return a < 0
        return b > 0
    if isinstance(a, SC) or isinstance(b, SC):
        raise TypeError("'<=' not supported for complex")
    return cmp0("le", _signpoly_d(a, b))


def _signpoly_d(a, b):
    d = a - b
    d = lift(d)
    return _signpoly(d)


def e_eq(a, b):
    if isinstance(a, SB) or isinstance(b, SB):
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            return e_not(e_xor(a, b))
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return False
    if isinstance(a, SC) or isinstance(b, SC):
        ar, ai = reim(a)
        br, bi = reim(b)
        return e_and(e_eq(ar, br), e_eq(ai, bi))
    d = lift(a - b)
    return cmp0("eq", d.n)


def e_ne(a, b):
    r = e_eq(a, b)
    return r if r is NotImplemented else e_not(r)


def reim(x):
    if isinstance(x, SC):
        return x.re, x.im
    if isinstance(x, complex):
        return num(x.real), num(x.imag)
    if isinstance(x, S):
        return out(x), Fraction(0)
    return num(x), Fraction(0)


def e_abs(x):
    if isinstance(x, SC):
        return e_hypot(x.re, x.im)
    if isinstance(x, S):
        return x if bool(e_le(0, x)) else -x
    return abs(x)


def e_max(a, b):
    """maximum as used by numpy.maximum (nan propagates)"""
    if _isnanf(a) or _isnanf(b):
        return NAN
    return a if bool(e_le(b, a)) else b


def e_min(a, b):
    if _isnanf(a) or _isnanf(b):
        return NAN
    return a if bool(e_le(a, b)) else b


def e_div(a, b):
    if isinstance(a, SC) or isinstance(b, SC):
        return as_sc(a) / b
    if isinstance(a, (int, bool)):
        a = Fraction(int(a))
    if isinstance(b, (int, bool)):
        b = Fraction(int(b))
    if isinstance(a, S) or isinstance(b, S):
        return a / b
    if isinstance(b, float):
        if b != b:
            return NAN
        if isinstance(a, float):
            return NAN
        return Fraction(0)
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return INF if a > 0 else -INF
    if isinstance(a, float):
        return a if (b > 0 or a != a) else -a
    return a / b


def e_mul(a, b):
    # handle special floats with rationals exactly
    if isinstance(a, float) and not isinstance(b, (S, SC, float)):
        return NAN if (b == 0 or a != a) else (a if b > 0 else -a)
    if isinstance(b, float) and not isinstance(a, (S, SC, float)):
        return NAN if (a == 0 or b != b) else (b if a > 0 else -b)
    return a * b


def _atom(fn, args, make):
    """find an existing atom with provably equal arguments or make one"""
    ctx = cur()
    lst = ctx.atoms.setdefault(fn, [])
    for a2, r in lst:
        if all(_same(x, y) for x, y in zip(args, a2)):
            return r
    r = make()
    lst.append((args, r))
    return r


def _same(x, y):
    x, y = lift(x), lift(y)
    if isinstance(x, float) or isinstance(y, float):
        return isinstance(x, float) and isinstance(y, float) and x == y
    if x.d == y.d:
        return x.n == y.n
    d = lift(x - y)
    return not d.n


def _zfrac(ctx, s):
    """z3 terms (num, den or None) of an element"""
    s = lift(s)
    return ctx.z(s.n), (ctx.z(s.den()) if s.d else None)


def _zle(ctx, a, b, op):
    r = {"lt": e_lt, "le": e_le, "eq": e_eq}[op](a, b)
    if isinstance(r, SB):
        return r.z, r.vs
    return z3.BoolVal(bool(r)), frozenset()


def _monotone(fn, args_list, a, v, increasing=True):
    """add pairwise monotonicity facts of a new unary atom v=fn(a)"""
    ctx = cur()
    if fn in ("erf", "tanh"):
        # odd: the same for minus the other argument
        for (b,), w in args_list:
            wi = _varidx(w)
            zl, vs = _zle(ctx, a + b, 0, "lt")
            zg, vs2 = _zle(ctx, 0, a + b, "lt")
            t = v.z + ctx.vars[wi].z
            ctx.pairs.append((vs | vs2 | {v.idx, wi}, z3.And(z3.Implies(zl, t < 0), z3.Implies(zg, t > 0), z3.Implies(z3.And(z3.Not(zl), z3.Not(zg)), t == 0))))
    for (b,), w in args_list:
        wi = _varidx(w)
        vi = v.idx
        zl, vs = _zle(ctx, a, b, "lt")
        zg, vs2 = _zle(ctx, b, a, "lt")
        ze, vs3 = _zle(ctx, a, b, "eq")
        V, W = v.z, ctx.vars[wi].z
        ctx.pairs.append((vs | vs2 | vs3 | {vi, wi},
                          z3.And(z3.Implies(zl, V < W), z3.Implies(zg, W < V), z3.Implies(ze, V == W))))


def _varidx(s):
    (m,) = s.n.keys()
    return m[0][0]


def _unary(fn, x, lo=None, hi=None, lo_open=False, hi_open=False, extra=None, monotone=True):
    def make():
        ctx = cur()
        v = ctx.fresh(fn, lo=lo, hi=hi, lo_open=lo_open, hi_open=hi_open, kind="atom", meta=(fn, x))
        if monotone:
            _monotone(fn, ctx.atoms.get(fn, []), x, v)
        if extra:
            for z, vs in extra(ctx, v):
                ctx.defs[v.idx].append((vs | {v.idx}, z))
        return ctx.S(v)
    return _atom(fn, (x,), make)


def _neg_first(x):
    """canonical sign for odd/even functions: True if leading coefficient < 0"""
    return x.n[max(x.n)] < 0


def PI():
    ctx = cur()
    v = ctx.byname.get("PI")
    if v is None:
        v = ctx.new_var("PI", lo=Fraction("3.14159265358979"), hi=Fraction("3.14159265358980"),
                        kind="atom", meta=("pi",))
    return ctx.S(v)


def poly_sqrt(p):
    """exact square root of a polynomial, or None"""
    if not p:
        return p
    if P.is_const(p):
        c = Fraction(P.const_value(p))
        r = _fsqrt(c)
        return None if r is None else P.const(r)
    lead = P._lead(p)
    if any(e % 2 for _, e in lead):
        return None
    c = _fsqrt(Fraction(p[lead]))
    if c is None or len(p) > 300:
        return None
    lm = tuple((v, e // 2) for v, e in lead)
    q = {lm: c}
    r = P.sub(p, P.mul_raw(q, q))
    two = {lm: 2 * c}
    steps = 0
    while r:
        steps += 1
        if steps > 60:
            return None
        lr = P._lead(r)
        d = dict(lr)
        ok = True
        t = {}
        for v, e in lm:
            if d.get(v, 0) < e:
                ok = False
                break
        if not ok:
            return None
        for v, e in d.items():
            k = e - dict(lm).get(v, 0)
            if k:
                t[v] = k
        tm = tuple(sorted(t.items()))
        if tm == lm:
            return None
        tc = Fraction(r[lr]) / (2 * c)
        term = {tm: tc}
        q2 = P.add(q, term)
        # r -= 2*q*term + term^2
        r = P.sub(r, P.add(P.scale(P.mul_raw(q, term), 2), P.mul_raw(term, term)))
        q = q2
        if len(q) * len(q) > 4 * len(p) + 40:
            return None
    return q


def _fsqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = _m.isqrt(c.numerator), _m.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def e_sqrt(x, nonneg=False):
    """square root; nonneg: the radicand is known not to be negative (a sum of squares)"""
    if isinstance(x, SC):
        raise Unsupported("complex sqrt")
    x = lift(x)
    if isinstance(x, float):
        return x if (x != x or x > 0) else NAN
    if x.is_const():
        c = Fraction(P.const_value(x.n))
        if c < 0:
            return NAN
        r = _fsqrt(c)
        if r is not None:
            return r
    if not nonneg and not x.is_const() and bool(e_lt(x, 0)):
        return NAN
    ctx = cur()
    n = x.n
    dd = {}
    for f, e in x.d:
        if e % 2:
            n = P.mul(n, ctx.factors[f], ctx.rules)
        k = (e + 1) // 2
        if not ctx.factor_positive(f):
            # |f|: decide the sign
            if not bool(cmp0("lt", P.neg(ctx.factors[f]))):
                n2 = None
                # f < 0 : sqrt(f^2) = -f
                if k % 2:
                    dd["sgn"] = -dd.get("sgn", 1)
        dd[f] = k
    sgn = dd.pop("sgn", 1)
    den = tuple(sorted(dd.items()))
    # pull out the rational content
    q, c = P.primitive(n)
    if c < 0:
        q, c = P.neg(q), -c
    c = Fraction(c)
    # c = a/b -> sqrt(ab)/b, extract squares
    ab = c.numerator * c.denominator
    sq = 1
    k = 2
    while k * k <= ab and k < 2000:
        while ab % (k * k) == 0:
            ab //= k * k
            sq *= k
        k += 1
    outer = Fraction(sq, c.denominator)
    q = P.scale(q, ab)
    # even monomials out
    cm = P.common_mono(q)
    res = S({(): outer * sgn}, den)
    for v, e in cm:
        if e >= 2:
            w = S(P.var(v), ())
            k = e // 2
            q = P.div_mono(q, ((v, 2 * k),))
            a = e_abs(w) if k % 2 else w
            res = res * e_pow(a, k)
    if P.is_const(q):
        r = _fsqrt(Fraction(P.const_value(q)))
        if r is not None:
            return out(lift(res * r))
    r = poly_sqrt(q)
    if r is not None:
        return out(lift(res * e_abs(out(S(r, ())))))
    return out(lift(res * _sqrt_atom(q)))


def _sqrt_atom(q):
    ctx = cur()
    lst = ctx.atoms.setdefault("sqrt", [])
    k = P.key(q)
    for kk, r in lst:
        if kk == k:
            return r
    lo, hi, lo_o, hi_o = ctx.interval(q)
    vhi = None
    if hi is not None and hi >= 0:
        vhi = _upsqrt(hi)
    vlo = Fraction(0)
    lo_open = False
    if lo is not None and lo > 0:
        vlo = _downsqrt(lo)
        lo_open = vlo == 0
    elif lo is not None and lo == 0 and lo_o:
        lo_open = True
    v = ctx.fresh("sqrt", lo=vlo, hi=vhi, kind="atom", meta=("sqrt", S(q, ())), lo_open=lo_open)
    ctx.rules[v.idx] = q
    ctx.defs[v.idx].append((frozenset(P.variables(q)) | {v.idx}, v.z * v.z == z3.ToReal(ctx.z(q)) if ctx.z(q).is_int() else v.z * v.z == ctx.z(q)))
    r = ctx.S(v)
    # zero exactly if the radicand is zero
    lst.append((k, r))
    return r


def _upsqrt(f):
    n = 10 ** 12
    return Fraction(_m.isqrt(_m.ceil(f * n * n)) + 1, n)


def _downsqrt(f):
    n = 10 ** 12
    return max(Fraction(0), Fraction(_m.isqrt(_m.floor(f * n * n)) - 1, n))


def e_hypot(x, y):
    return e_sqrt(x * x + y * y, nonneg=True)


def e_exp(x):
    if isinstance(x, SC):
        m = e_exp(x.re)
        return SC(e_mul(m, e_cos(x.im)), e_mul(m, e_sin(x.im)))
    x = lift(x)
    if isinstance(x, float):
        return x if (x != x or x > 0) else Fraction(0)
    if not x.n:
        return Fraction(1)
    ctx = cur()
    # exp(log(a)) = a ; exp(k*log(a)) = a**k for small integer k
    if not x.d and len(x.n) == 1:
        (m, c), = x.n.items()
        if len(m) == 1 and m[0][1] == 1 and ctx.vars[m[0][0]].kind == "atom" \
                and ctx.vars[m[0][0]].meta[0] == "log" and Fraction(c).denominator == 1 and abs(c) <= 8:
            return e_pow(ctx.vars[m[0][0]].meta[1], int(c))

    def extra(ctx, v):
        zl, vs = _zle(ctx, x, 0, "lt")
        zg, vs2 = _zle(ctx, 0, x, "lt")
        o = [(z3.And(z3.Implies(zl, v.z < 1), z3.Implies(zg, v.z > 1), z3.Implies(z3.And(z3.Not(zl), z3.Not(zg)), v.z == 1)), frozenset(vs | vs2))]
        a, d = _zfrac(ctx, x)
        if d is None:
            o.append((v.z >= 1 + (z3.ToReal(a) if a.is_int() else a), frozenset(x.vars())))
        return o
    return _unary("exp", out(x) if x.is_const() else x, lo=0, lo_open=True, extra=extra)


def e_expm1(x):
    return e_exp(x) - 1


def e_log(x):
    if isinstance(x, SC):
        raise Unsupported("complex log")
    x = lift(x)
    if isinstance(x, float):
        return x if (x != x or x > 0) else NAN
    if x.is_const():
        c = P.const_value(x.n)
        if c == 1:
            return Fraction(0)
        if c == 0:
            return -INF
        if c < 0:
            return NAN
    else:
        if bool(e_eq(x, 0)):
            return -INF
        if bool(e_lt(x, 0)):
            return NAN
    ctx = cur()
    for (a,), r in ctx.atoms.get("exp", []):
        if _same(x, r):
            return a
        # log(c / exp(a)) etc. not handled
    xx = out(x) if x.is_const() else x

    def extra(ctx, v):
        zl, vs = _zle(ctx, x, 1, "lt")
        zg, vs2 = _zle(ctx, 1, x, "lt")
        o = [(z3.And(z3.Implies(zl, v.z < 0), z3.Implies(zg, v.z > 0), z3.Implies(z3.And(z3.Not(zl), z3.Not(zg)), v.z == 0)), frozenset(vs | vs2))]
        a, d = _zfrac(ctx, x)
        if d is None:
            o.append((v.z <= (z3.ToReal(a) if a.is_int() else a) - 1, frozenset(x.vars())))
        return o
    return _unary("log", xx, extra=extra)


def e_log1p(x):
    return e_log(1 + x if not isinstance(x, float) else x)


def _angle_split(x):
    """split an angle into (quarter turns, list of S terms)"""
    ctx = cur()
    x = lift(x)
    q = Fraction(0)
    terms = []
    piv = ctx.byname.get("PI")
    for m, c in sorted(x.n.items(), key=lambda t: t[0]):
        if not x.d and piv is not None and m == ((piv.idx, 1),):
            q += 2 * Fraction(c)
        else:
            terms.append(_mk({m: c}, x.d))
    return q, terms


def e_sin(x):
    return _sincos(x)[0]


def e_cos(x):
    return _sincos(x)[1]


def _sincos(x):
    if isinstance(x, SC):
        raise Unsupported("complex sin")
    x = lift(x)
    if isinstance(x, float):
        return NAN, NAN
    if not x.n:
        return Fraction(0), Fraction(1)
    q, terms = _angle_split(x)
    s, c = Fraction(0), Fraction(1)
    if len(terms) > 4:
        terms = [x]
        q = Fraction(0)
    if q.denominator != 1:
        # multiples of pi that are not quarter turns: treat as a term
        terms.append(q / 2 * PI())
        q = Fraction(0)
    for t in terms:
        s2, c2 = _sincos_term(t)
        s, c = s * c2 + c * s2, c * c2 - s * s2
    k = int(q) % 4
    if k == 1:
        s, c = c, -s
    elif k == 2:
        s, c = -s, -c
    elif k == 3:
        s, c = -c, s
    return _o(s), _o(c)


def _o(x):
    return out(x) if isinstance(x, S) else x


def _sincos_term(t):
    t = lift(t)
    ctx = cur()
    if not t.n:
        return Fraction(0), Fraction(1)
    sgn = 1
    if _neg_first(t):
        t = -t
        sgn = -1
    if not t.d and len(t.n) == 1:
        (m, c), = t.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            v = ctx.vars[m[0][0]]
            if v.kind == "atom":
                if v.meta[0] == "atan2":
                    _, y, xx, r = v.meta
                    return sgn * (y / r), xx / r
                if v.meta[0] == "asin":
                    return sgn * v.meta[1], e_sqrt(1 - v.meta[1] * v.meta[1])
                if v.meta[0] == "acos":
                    return sgn * e_sqrt(1 - v.meta[1] * v.meta[1]), v.meta[1]
    lst = ctx.atoms.setdefault("sincos", [])
    for a, (s, c) in lst:
        if _same(a, t):
            return sgn * s, c
    vc = ctx.fresh("cos", lo=-1, hi=1, kind="atom", meta=("cos", t))
    vs = ctx.fresh("sin", lo=-1, hi=1, kind="atom", meta=("sin", t))
    ctx.rules[vs.idx] = {(): 1, ((vc.idx, 2),): -1}
    f = (frozenset([vc.idx, vs.idx]), vc.z * vc.z + vs.z * vs.z == 1)
    ctx.defs[vs.idx].append(f)
    ctx.defs[vc.idx].append((frozenset([vc.idx, vs.idx]), z3.BoolVal(True)))
    # sign facts on the principal range
    rng = ctx.opts.get("trig_range", True)
    if rng:
        p = PI()
        zs, v1 = _zle(ctx, 0, t, "lt")
        zb, v2 = _zle(ctx, t, p, "lt")
        zs2, v3 = _zle(ctx, t, 0, "lt")
        zb2, v4 = _zle(ctx, -p, t, "lt")
        zh, v5 = _zle(ctx, t + t, p, "lt")
        zh2, v6 = _zle(ctx, -p, t + t, "lt")
        allv = frozenset(v1 | v2 | v3 | v4 | v5 | v6 | {vc.idx, vs.idx})
        ctx.pairs.append((allv, z3.And(
            z3.Implies(z3.And(zs, zb), vs.z > 0),
            z3.Implies(z3.And(zs2, zb2), vs.z < 0),
            z3.Implies(z3.And(zh, zh2), vc.z > 0),
            z3.Implies(z3.And(zs, zb, z3.Not(zh)), vc.z <= 0),
            z3.Implies(z3.And(zs2, zb2, z3.Not(zh2)), vc.z <= 0),
            z3.Implies(z3.And(zs, z3.Not(zh), _zle(ctx, t + t, p, "eq")[0]), z3.And(vc.z == 0, vs.z == 1)),
            z3.Implies(z3.And(zs2, z3.Not(zh2), _zle(ctx, t + t, -p, "eq")[0]), z3.And(vc.z == 0, vs.z == -1)))))
    s, c = ctx.S(vs), ctx.S(vc)
    lst.append((t, (s, c)))
    return sgn * s, c


def e_tan(x):
    s, c = _sincos(x)
    return e_div(s, c)


def _principal(y, x):
    """t for atan2(sin t, cos t) with t on the principal range"""
    ctx = cur()
    for t, (s, c) in ctx.atoms.get("sincos", []):
        for sg in (1, -1):
            if _same(y, sg * s) and _same(x, c):
                t = sg * t
                if bool(e_and(e_lt(-PI(), t), e_le(t, PI()))):
                    return out(t)
                return None
    return None


def e_atan2(y, x):
    yl, xl = lift(y), lift(x)
    if isinstance(yl, float) or isinstance(xl, float):
        raise Unsupported("atan2 with special values")
    if yl.is_const() and P.const_value(yl.n) == 0:
        if bool(e_le(0, xl)):
            return Fraction(0)
        return PI()
    if xl.is_const() and P.const_value(xl.n) == 0:
        if bool(e_lt(0, yl)):
            return PI() / 2
        if bool(e_lt(yl, 0)):
            return -PI() / 2
        return Fraction(0)
    t = _principal(yl, xl)
    if t is not None:
        return t
    r2 = yl * yl + xl * xl
    if bool(e_eq(r2, 0)):
        cur().assume(e_and(e_eq(xl, 0), e_eq(yl, 0)))       # implied
        return Fraction(0)
    # atan2(sin t, cos t) = t is only valid on the principal range: not used
    r = e_sqrt(r2, nonneg=True)

    def make():
        ctx = cur()
        p = PI()
        piv = ctx.byname["PI"]
        v = ctx.fresh("atan2", lo=Fraction("-3.1415926535898"), hi=Fraction("3.1415926535898"),
                      kind="atom", meta=("atan2", _o(yl), _o(xl), r))
        y0, v1 = _zle(ctx, 0, yl, "lt")
        y1, v2 = _zle(ctx, yl, 0, "lt")
        x0, v3 = _zle(ctx, 0, xl, "lt")
        x1, v4 = _zle(ctx, xl, 0, "lt")
        T, PZ = v.z, piv.z
        al = frozenset(v1 | v2 | v3 | v4 | {v.idx, piv.idx})
        ctx.defs[v.idx].append((frozenset([v.idx, piv.idx]), z3.And(T > -PZ, T <= PZ)))
        ctx.pairs.append((al, z3.And(
            z3.Implies(y0, z3.And(T > 0, T < PZ)),
            z3.Implies(y1, z3.And(T < 0, T > -PZ)),
            z3.Implies(z3.And(z3.Not(y0), z3.Not(y1), x0), T == 0),
            z3.Implies(z3.And(z3.Not(y0), z3.Not(y1), x1), T == PZ),
            z3.Implies(x0, z3.And(2 * T < PZ, 2 * T > -PZ)),
            z3.Implies(z3.And(z3.Not(x0), z3.Not(x1), y0), 2 * T == PZ),
            z3.Implies(z3.And(z3.Not(x0), z3.Not(x1), y1), 2 * T == -PZ),
            z3.Implies(z3.And(x1, y0), 2 * T > PZ),
            z3.Implies(z3.And(x1, y1), 2 * T < -PZ))))
        return ctx.S(v)
    return _atom("atan2", (_o(yl), _o(xl)), make)


def e_asin(x):
    xl = lift(x)
    if isinstance(xl, float):
        return NAN
    if xl.is_const() and P.const_value(xl.n) == 0:
        return Fraction(0)
    if bool(e_lt(1, xl)) or bool(e_lt(xl, -1)):
        return NAN
    p = PI()
    piv = cur().byname["PI"]

    def extra(ctx, v):
        a, vs = _zle(ctx, 0, xl, "lt")
        b, vs2 = _zle(ctx, xl, 0, "lt")
        return [(z3.And(2 * v.z <= piv.z, 2 * v.z >= -piv.z), frozenset([piv.idx])),
                (z3.And(z3.Implies(a, v.z > 0), z3.Implies(b, v.z < 0),
                        z3.Implies(z3.And(z3.Not(a), z3.Not(b)), v.z == 0)), frozenset(vs | vs2))]
    return _unary("asin", _o(xl), lo=Fraction("-1.5707963267949"), hi=Fraction("1.5707963267949"), extra=extra)


def e_acos(x):
    return PI() / 2 - e_asin(x)


def e_atan(x):
    return e_atan2(x, Fraction(1))


def _odd_bounded(fn, x):
    xl = lift(x)
    if isinstance(xl, float):
        if xl != xl:
            return NAN
        return Fraction(1) if xl > 0 else Fraction(-1)
    if not xl.n:
        return Fraction(0)
    if _neg_first(xl):
        return -_odd_bounded(fn, -xl)

    def extra(ctx, v):
        a, vs = _zle(ctx, 0, xl, "lt")
        b, vs2 = _zle(ctx, xl, 0, "lt")
        o = [(z3.And(z3.Implies(a, v.z > 0), z3.Implies(b, v.z < 0),
                     z3.Implies(z3.And(z3.Not(a), z3.Not(b)), v.z == 0)), frozenset(vs | vs2))]
        if fn == "tanh":
            n, d = _zfrac(ctx, xl)
            if d is None:
                o.append((z3.And(z3.Implies(a, v.z < n), z3.Implies(b, v.z > n)), frozenset(xl.vars() | vs | vs2)))
        return o
    return _unary(fn, _o(xl), lo=-1, hi=1, lo_open=True, hi_open=True, extra=extra)


def e_tanh(x):
    return _odd_bounded("tanh", x)


def e_erf(x):
    return _odd_bounded("erf", x)


def e_pow(x, y):
    if isinstance(y, SC) or isinstance(y, complex):
        raise Unsupported("complex power")
    y = num(y)
    if isinstance(y, S):
        y = y.simple()
    if isinstance(x, SC):
        if isinstance(y, (int, Fraction)) and Fraction(y).denominator == 1 and 0 <= y <= 16:
            r = SC(Fraction(1), Fraction(0))
            for _ in range(int(y)):
                r = r * x
            return r
        raise Unsupported("complex power")
    x = num(x)
    if isinstance(y, (int, Fraction, bool)):
        fy = Fraction(y)
        if fy.denominator == 1:
            k = int(fy)
            if isinstance(x, float):
                return x ** k if k else 1
            if not isinstance(x, S):
                if k < 0:
                    return e_div(1, Fraction(x) ** (-k))
                return Fraction(x) ** k if isinstance(x, Fraction) else x ** k
            if k < 0:
                return e_div(Fraction(1), e_pow(x, -k))
            if k > 64:
                raise Unsupported("large power")
            ctx = cur()
            return out(S(P.power(x.n, k, ctx.rules), tuple((f, e * k) for f, e in x.d)) if k else S({(): 1}, ()))
        if fy.denominator == 2:
            if isinstance(x, S) and cur().opts.get("fp_sqrt"):
                from .patch import fp_sqrt
                r = fp_sqrt(x, cur())
            else:
                r = e_sqrt(x)
            return e_pow(r, fy.numerator)
    if isinstance(y, float) or isinstance(x, float):
        raise Unsupported("power with special values")
    # general: exp(y log x)
    if bool(e_eq(x, 0)):
        if bool(e_lt(0, y)):
            return Fraction(0)
        if bool(e_eq(y, 0)):
            return Fraction(1)
        return INF
    if bool(e_lt(x, 0)):
        return NAN
    return e_exp(y * e_log(x))


def _floor_fp(x):
    """floor(y / q + b) of a rounded square root with k <= 2y < k + 1 is floor((k + 2qb) / 2q)"""
    ctx = cur()
    if x.d or not ctx.fpk:
        return None
    hit = [(m, c) for m, c in x.n.items() if any(v in ctx.fpk for v, _ in m)]
    if len(hit) != 1:
        return None
    m, c = hit[0]
    c = Fraction(c)
    if len(m) != 1 or m[0][1] != 1 or c.numerator != 1:
        return None
    q2 = 2 * c.denominator
    p = {ctx_m: Fraction(v) * q2 for ctx_m, v in x.n.items() if ctx_m != m}
    if any(v.denominator != 1 for v in p.values()) or any(ctx.vars[v].sort != "int" for mm in p for v, _ in mm):
        return None
    k = ctx.fpk[m[0][0]]
    p = P.add({mm: int(v) for mm, v in p.items()}, P.var(k.idx))
    return _floor_int(p, q2, x)


def _floor_int(p, den, x):
    """floor(p / den) of an integer polynomial"""
    s = S(p, ()) if not P.is_const(p) else None
    if s is None:
        return int(P.const_value(p)) // den
    x = out(S(P.scale(p, Fraction(1, den)), ()))

    def make():
        ctx = cur()
        lo, hi, _, _ = ctx.interval(p)
        lo = None if lo is None else _m.floor(lo / den)
        hi = None if hi is None else _m.floor(hi / den)
        if lo is not None and lo == hi:
            return lo
        v = ctx.fresh("floor", sort="int", lo=lo, hi=hi, kind="atom", meta=("floor", x))
        z = ctx.z(p)
        ctx.defs[v.idx].append((frozenset(P.variables(p) | {v.idx}), z3.And(den * v.z <= z, z < den * v.z + den)))
        return ctx.S(v)
    return _atom("floor", (x,), make)


def e_floor(x):
    x = num(x)
    if isinstance(x, (int, bool)):
        return int(x)
    if isinstance(x, Fraction):
        return _m.floor(x)
    if isinstance(x, float):
        return x
    if x.is_int():
        return x

    r = _floor_fp(x)
    if r is not None:
        return r
    if not x.d:
        # integer numerator over a constant: floor division on integers
        den = 1
        for c in x.n.values():
            den = den * Fraction(c).denominator // _m.gcd(den, Fraction(c).denominator)
        p = {m: int(c * den) for m, c in x.n.items()}
        if den > 1 and all(cur().vars[v].sort == "int" for m in p for v, _ in m):
            return _floor_int(p, den, x)

    def make():
        ctx = cur()
        lo, hi, _, ho = ctx.interval(x.n) if not x.d else (None, None, 0, 0)
        if lo is not None and hi is not None:
            a, b = _m.floor(lo), _m.floor(hi)
            if ho and b == hi:
                b -= 1
            if a == b:
                return a
        v = ctx.fresh("floor", sort="int", lo=None if lo is None else _m.floor(lo),
                      hi=None if hi is None else _m.floor(hi), kind="atom", meta=("floor", x))
        k = ctx.S(v)
        a, vs = _zle(ctx, k, x, "le")
        b, vs2 = _zle(ctx, x, k + 1, "lt")
        ctx.defs[v.idx].append((frozenset(vs | vs2 | {v.idx}), z3.And(a, b)))
        return k
    return _atom("floor", (x,), make)


def e_ceil(x):
    x = num(x)
    if isinstance(x, float):
        return x
    if isinstance(x, Fraction):
        return _m.ceil(x)
    return -e_floor(-x)


def e_trunc(x):
    x = num(x)
    if isinstance(x, float):
        raise Unsupported("int of special float")
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, (int, bool)):
        return int(x)
    if x.is_int():
        return x
    if bool(e_le(0, x)):
        return e_floor(x)
    return -e_floor(-x)


def e_round(x):
    """round half to even, integer valued"""
    x = num(x)
    if isinstance(x, (int, bool)):
        return int(x)
    if isinstance(x, Fraction):
        return round(x)
    if isinstance(x, float):
        return x
    if x.is_int():
        return x

    def make():
        ctx = cur()
        v = ctx.fresh("round", sort="int", kind="atom", meta=("round", x))
        w = ctx.fresh("roundh", sort="int", kind="atom", meta=("floor", ctx.S(v) / 2))
        k = ctx.S(v)
        a, vs = _zle(ctx, k - Fraction(1, 2), x, "le")
        b, vs2 = _zle(ctx, x, k + Fraction(1, 2), "le")
        t1, vs3 = _zle(ctx, k - Fraction(1, 2), x, "eq")
        t2, vs4 = _zle(ctx, x, k + Fraction(1, 2), "eq")
        ctx.defs[v.idx].append((frozenset(vs | vs2 | vs3 | vs4 | {v.idx, w.idx}),
                                z3.And(a, b, z3.Implies(z3.Or(t1, t2), v.z == 2 * w.z))))
        return k
    return _atom("round", (x,), make)


def e_sign(x):
    if bool(e_lt(0, x)):
        return Fraction(1)
    if bool(e_lt(x, 0)):
        return Fraction(-1)
    return Fraction(0)


# --------------------------------------------------------------------------
# complex scalars

class SC:
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"SC({self.re}, {self.im})"

    def _o(self, o):
        if isinstance(o, SC):
            return o
        r = lift(o)
        if r is NotImplemented:
            return NotImplemented
        return as_sc(r)

    def __add__(self, o):
        o = self._o(o)
        return o if o is NotImplemented else SC(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self): return SC(-self.re, -self.im)
    def __pos__(self): return self

    def __sub__(self, o):
        o = self._o(o)
        return o if o is NotImplemented else SC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self._o(o)
        return o if o is NotImplemented else SC(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = self._o(o)
        if o is NotImplemented:
            return o
        return SC(e_mul(self.re, o.re) - e_mul(self.im, o.im), e_mul(self.re, o.im) + e_mul(self.im, o.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._o(o)
        if o is NotImplemented:
            return o
        if not isinstance(o.im, S) and o.im == 0:
            return SC(e_div(self.re, o.re), e_div(self.im, o.re))
        d = o.re * o.re + o.im * o.im
        a = self.re * o.re + self.im * o.im
        b = self.im * o.re - self.re * o.im
        return SC(e_div(a, d), e_div(b, d))

    def __rtruediv__(self, o):
        o = self._o(o)
        return o if o is NotImplemented else o / self

    def __pow__(self, o): return e_pow(self, o)
    def __abs__(self): return e_hypot(self.re, self.im)
    def __eq__(self, o): return e_eq(self, o)
    def __ne__(self, o): return e_ne(self, o)
    __hash__ = None

    def __bool__(self):
        return bool(e_ne(self, 0))

    def conjugate(self): return SC(self.re, -self.im)
    conj = conjugate

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def __float__(self):
        raise TypeError("can't convert complex to float")


def as_sc(x):
    if isinstance(x, SC):
        return x
    if isinstance(x, complex):
        return SC(num(x.real), num(x.imag))
    return SC(num(x) if not isinstance(x, S) else out(x), Fraction(0))


# --------------------------------------------------------------------------
# numeric evaluation and display

def evalf(x, env, ctx=None):
    """floating point value of an element given values for input variables"""
    ctx = ctx or cur()
    if isinstance(x, SC):
        return complex(evalf(x.re, env, ctx), evalf(x.im, env, ctx))
    if isinstance(x, SB):
        k = x.key[0]
        if k == "not":
            return not evalf(x.parts[0], env, ctx)
        if k == "and":
            return all(evalf(p, env, ctx) for p in x.parts)
        if k == "or":
            return any(evalf(p, env, ctx) for p in x.parts)
        v = evalp(x.p, env, ctx)
        return v < 0 if k == "lt" else v <= 0 if k == "le" else v == 0
    if not isinstance(x, S):
        return x if isinstance(x, (bool, int)) else float(x)
    n = evalp(x.n, env, ctx)
    d = 1.0
    for f, e in x.d:
        d *= evalp(ctx.factors[f], env, ctx) ** e
    return n / d if d else NAN


def evalp(p, env, ctx):
    t = 0.0
    for m, c in p.items():
        v = float(c)
        for i, e in m:
            v *= evalv(i, env, ctx) ** e
        t += v
    return t


def evalv(i, env, ctx):
    v = ctx.vars[i]
    if v.name in env:
        return env[v.name]
    if v.kind == "input" or v.meta is None:
        raise KeyError(v.name)
    fn = v.meta[0]
    if fn == "pi":
        r = _m.pi
    else:
        a = [evalf(q, env, ctx) for q in v.meta[1:]]
        f = {"sqrt": lambda q: _m.sqrt(max(q, 0.0)), "exp": _m.exp, "log": _m.log, "sin": _m.sin, "cos": _m.cos,
             "asin": _m.asin, "tanh": _m.tanh, "erf": _m.erf, "floor": _m.floor, "round": round,
             "fpk": lambda q: _m.isqrt(int(4 * q)),
             "atan2": lambda y, x, r: _m.atan2(y, x)}[fn]
        r = f(*a)
    env[v.name] = r
    return r


def show(s, limit=12):
    if not isinstance(s, S):
        return str(s)
    ctx = cur()

    def pp(p):
        t = []
        for m, c in sorted(p.items())[:limit]:
            t.append("*".join([str(c)] * (c != 1 or not m) + [ctx.vars[v].name + (f"^{e}" if e > 1 else "") for v, e in m]))
        if len(p) > limit:
            t.append(f"...({len(p)} terms)")
        return " + ".join(t) or "0"
    r = pp(s.n)
    if s.d:
        r = f"({r})/[" + " * ".join("(" + pp(ctx.factors[f]) + ")" + (f"^{e}" if e > 1 else "") for f, e in s.d) + "]"
    return r
