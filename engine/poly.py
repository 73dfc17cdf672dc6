"""Rational-function normal form for z3 real terms (used to simplify equality
obligations before they go to the solver)."""
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 12000


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def pdiv(a, b):
    """exact quotient a/b of polynomials, or None"""
    if len(a) > 3000 or len(b) > 60:
        return None
    vs = sorted({i for m in list(a) + list(b) for (i, _) in m})

    def vec(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in vs)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    cb = B[lb]
    q = {}
    for _ in range(4000):
        if not A:
            return {tuple((i, x) for i, x in zip(vs, m) if x): c for m, c in q.items()}
        la = max(A)
        if any(x < y for x, y in zip(la, lb)):
            return None
        m = tuple(x - y for x, y in zip(la, lb))
        c = A[la] / cb
        q[m] = c
        for k, v in B.items():
            kk = tuple(x + y for x, y in zip(k, m))
            w = A.get(kk, 0) - c * v
            if w:
                A[kk] = w
            else:
                A.pop(kk, None)
    return None


class Norm:
    def __init__(self, eng):
        self.E = eng
        self.atoms = {}
        self.cache = {}
        self.sq = {}      # atom id -> z3 arg for sqrt atoms
        for (name, _), (v, arg, _ax) in eng.defcache.items():
            if name == "sqrt":
                self.sq[v.get_id()] = (v, arg)

    def atom(self, e):
        i = e.get_id()
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}, {(): Fraction(1)}

    def conv(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = (self._conv(e), e)
        return r[0]

    def ratadd(self, a, b, s):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return padd(n1, n2, s), d1
        # common case: one denominator divides the other (monomials)
        if len(d1) == 1 and len(d2) == 1:
            (m1, c1), = d1.items()
            (m2, c2), = d2.items()
            x1, x2 = dict(m1), dict(m2)
            l = dict(x1)
            for q, ex in x2.items():
                l[q] = max(l.get(q, 0), ex)
            f1 = tuple(sorted((q, ex - x1.get(q, 0)) for q, ex in l.items() if ex - x1.get(q, 0)))
            f2 = tuple(sorted((q, ex - x2.get(q, 0)) for q, ex in l.items() if ex - x2.get(q, 0)))
            lm = tuple(sorted(l.items()))
            return padd(pmul(n1, {f1: 1 / c1}), pmul(n2, {f2: 1 / c2}), s), {lm: Fraction(1)}
        return padd(pmul(n1, d2), pmul(n2, d1), s), pmul(d1, d2)

    def _conv(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return ({(): f} if f else {}), ONE
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = self.conv(e.arg(0))
                for i in range(1, e.num_args()):
                    r = self.ratadd(r, self.conv(e.arg(i)), 1)
                return r
            if k == z3.Z3_OP_SUB:
                r = self.conv(e.arg(0))
                for i in range(1, e.num_args()):
                    r = self.ratadd(r, self.conv(e.arg(i)), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                n, d = self.conv(e.arg(0))
                return {m: -c for m, c in n.items()}, d
            if k == z3.Z3_OP_MUL:
                n, d = self.conv(e.arg(0))
                for i in range(1, e.num_args()):
                    n2, d2 = self.conv(e.arg(i))
                    n, d = pmul(n, n2), pmul(d, d2)
                    if len(d) > 1 or (len(d) == 1 and () not in d and len(n) > 1):
                        q = pdiv(n, d) if len(d) > 1 else None
                        if q is not None:
                            n, d = q, ONE
                return n, d
            if k == z3.Z3_OP_DIV:
                n, d = self.conv(e.arg(0))
                n2, d2 = self.conv(e.arg(1))
                n = pmul(n, d2)
                if len(n2) > 1 and len(n) >= len(n2):
                    q = pdiv(n, n2)
                    if q is not None:
                        return q, d
                return n, pmul(d, n2)
            if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
                f = e.arg(1).as_fraction()
                if f.denominator == 1 and 0 <= f <= 40:
                    n, d = self.conv(e.arg(0))
                    rn, rd = ONE, ONE
                    for _ in range(int(f)):
                        rn, rd = pmul(rn, n), pmul(rd, d)
                    return rn, rd
        return self.atom(e)

    def reduce_sqrt(self, n):
        """rewrite s^2 -> arg in polynomial n (denominators multiplied out)."""
        for _ in range(50):
            hit = None
            for m in n:
                for (i, ex) in m:
                    if ex >= 2 and i in self.sq:
                        if hit is None or i > hit:
                            hit = i
            if hit is None:
                return n
            pn, pd = self.conv(self.sq[hit][1])
            mx = max(ex // 2 for m in n for (i, ex) in m if i == hit)
            pows_n = [ONE]
            pows_d = [ONE]
            for _k in range(mx):
                pows_n.append(pmul(pows_n[-1], pn))
                pows_d.append(pmul(pows_d[-1], pd))
            r = {}
            for m, c in n.items():
                d = dict(m)
                ex = d.get(hit, 0)
                h = ex // 2
                if ex:
                    d[hit] = ex - 2 * h
                    if d[hit] == 0:
                        del d[hit]
                base = {tuple(sorted(d.items())): c}
                r = padd(r, pmul(pmul(base, pows_n[h]), pows_d[mx - h]))
            n = r
        return n

    def to_expr(self, n):
        ts = []
        for m, c in n.items():
            t = [z3.RealVal(c)] if c != 1 or not m else []
            for (i, ex) in m:
                t += [self.atoms[i]] * ex
            ts.append(t[0] if len(t) == 1 else z3.Product(t))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


def numerator(eng, e):
    """numerator polynomial (dict) of the rational function e; None if too big"""
    nf = Norm(eng)
    try:
        n, d = nf.conv(e)
        n = nf.reduce_sqrt(n)
        return nf, n
    except TooBig:
        return nf, None


def find_ite(e, seen=None):
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(x):
                # innermost first
                sub = None
                for k in range(3):
                    if sub is None:
                        sub = find_ite(x.arg(k), seen)
                return sub if sub is not None else x
            for k in range(x.num_args()):
                stack.append(x.arg(k))
    return None
