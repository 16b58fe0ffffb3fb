"""Sparse multivariate polynomials over Q with algebraic reduction rules.

A polynomial is a plain dict ``{mono: coeff}`` where ``mono`` is a tuple of
``(variable index, exponent)`` pairs sorted by index, and coeff is an int or
Fraction (never zero).  Variables live in the table of the current path
context; a variable may carry a rule ``v**2 -> polynomial`` (square roots,
sines), which is applied after each multiplication.
"""
from __future__ import annotations
from fractions import Fraction

ONE = ()
MAX_TERMS = 200_000


class TooBig(Exception):
    """a polynomial exceeded the size limit"""


def const(c):
    return {ONE: c} if c != 0 else {}


def var(i):
    return {((i, 1),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_value(p):
    return p.get(ONE, 0)


def add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def scale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            r.append(x); i += 1
        elif x[0] > y[0]:
            r.append(y); j += 1
        else:
            r.append((x[0], x[1] + y[1])); i += 1; j += 1
    if i < la:
        r.extend(a[i:])
    if j < lb:
        r.extend(b[j:])
    return tuple(r)


def mul_raw(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if m == ONE:
            return scale(q, c)
        return {mono_mul(m, n): c * d for n, d in q.items()}
    if len(p) * len(q) > 4 * MAX_TERMS:
        raise TooBig(f"{len(p)} x {len(q)} terms")
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            s = r.get(k)
            if s is None:
                r[k] = c * d
            else:
                r[k] = s + c * d
    return {m: c for m, c in r.items() if c != 0}


def reduce(p, rules):
    """apply v**2 rules (dict idx -> poly) until none applies"""
    if not rules:
        return p
    while True:
        bad = None
        for m in p:
            for v, e in m:
                if e >= 2 and v in rules:
                    bad = True
                    break
            if bad:
                break
        if not bad:
            return p
        r = {}
        acc = []
        for m, c in p.items():
            hit = None
            for v, e in m:
                if e >= 2 and v in rules:
                    hit = (v, e)
                    break
            if hit is None:
                s = r.get(m, 0) + c
                if s == 0:
                    r.pop(m, None)
                else:
                    r[m] = s
            else:
                v, e = hit
                rest = tuple((w, f) for w, f in m if w != v)
                if e % 2:
                    rest = mono_mul(rest, ((v, 1),))
                t = {rest: c}
                rule = rules[v]
                for _ in range(e // 2):
                    t = mul_raw(t, rule)
                acc.append(t)
        for t in acc:
            r = add(r, t)
        p = r


def mul(p, q, rules):
    return reduce(mul_raw(p, q), rules)


def power(p, k, rules):
    r = {ONE: 1}
    b = p
    while k:
        if k & 1:
            r = mul(r, b, rules)
        k >>= 1
        if k:
            b = mul(b, b, rules)
    return r


def variables(p):
    return {v for m in p for v, _ in m}


def degree(p):
    return max((sum(e for _, e in m) for m in p), default=0)


def key(p):
    return frozenset(p.items())


def common_mono(p):
    """largest monomial dividing every term"""
    it = iter(p)
    try:
        g = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        if not g:
            return ()
        d = dict(m)
        g = {v: min(e, d[v]) for v, e in g.items() if v in d}
    return tuple(sorted(g.items()))


def div_mono(p, m):
    if not m:
        return p
    dm = dict(m)
    r = {}
    for k, c in p.items():
        out = []
        for v, e in k:
            e -= dm.get(v, 0)
            if e:
                out.append((v, e))
        r[tuple(out)] = c
    return r


def has_mono(p, v):
    return all(any(w == v for w, _ in m) for m in p)


def content(p):
    """rational content, sign such that the leading coefficient is positive"""
    if not p:
        return 1
    from math import gcd
    num = 0
    den = 1
    for c in p.values():
        if isinstance(c, int):
            num = gcd(num, c)
        else:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
    c = Fraction(num, den)
    lead = max(p)
    if p[lead] < 0:
        c = -c
    return int(c) if c.denominator == 1 else c


def normc(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def primitive(p):
    c = content(p)
    if c == 1:
        return p, 1
    if isinstance(c, int):
        ic = Fraction(1, c)
    else:
        ic = 1 / c
    return {m: normc(v * ic) for m, v in p.items()}, c


def _lead(p):
    # graded order compatible with multiplication: total degree, then lexicographic
    return max(p, key=_okey)


def _okey(m):
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def exact_div(p, q):
    """return p/q if q divides p exactly (no reduction rules), else None"""
    if not p:
        return p
    if len(q) > len(p) and len(p) > 1 and len(q) > 4 * len(p):
        return None
    if len(q) == 1:
        (m, c), = q.items()
        cm = dict(common_mono(p))
        if any(cm.get(v, 0) < e for v, e in m):
            return None
        return {k: normc(Fraction(v) / c) for k, v in div_mono(p, m).items()}
    # quick rejection by degrees in each variable of q
    lq = _lead(q)
    cq = q[lq]
    dq = dict(lq)
    r = dict(p)
    out = {}
    steps = 0
    limit = 4 * len(p) + 50
    while r:
        steps += 1
        if steps > limit:
            return None
        lr = _lead(r)
        dr = dict(lr)
        for v, e in dq.items():
            if dr.get(v, 0) < e:
                return None
        t = tuple(sorted((v, e - dq.get(v, 0)) for v, e in dr.items() if e - dq.get(v, 0)))
        c = normc(Fraction(r[lr]) / cq)
        out[t] = normc(out.get(t, 0) + c)
        for m, d in q.items():
            k = mono_mul(t, m)
            s = r.get(k, 0) - c * d
            if s == 0:
                r.pop(k, None)
            else:
                r[k] = normc(s)
    return out
