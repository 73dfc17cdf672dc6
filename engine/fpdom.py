"""Floating-point domains of the executor.

RealDom : double/float values are exact reals (z3 Real / Fraction).  Rounding,
          overflow and underflow are outside the claim; sqrt/pow/exp/... are
          defined by axioms.
IEEEDom : double/float/half values are IEEE-754 bit exact (z3 FloatingPoint).
"""
import math
import struct
from fractions import Fraction

import z3

INF = float("inf")
NAN = float("nan")


def special(v):
    return type(v) is float


def fkey(e):
    return e.get_id()


def tofloat(fr):
    if type(fr) is float:
        return fr
    try:
        return float(fr)
    except OverflowError:
        return INF if fr > 0 else -INF


def ite_real(v, signed, d=0):
    """a selection between constant integers, as a selection between reals"""
    if d > 6 or not z3.is_app(v):
        return None
    k = v.decl().kind()
    if k == z3.Z3_OP_BNUM:
        return z3.RealVal(v.as_signed_long() if signed else v.as_long())
    if k == z3.Z3_OP_ITE:
        a, b = ite_real(v.arg(1), signed, d + 1), ite_real(v.arg(2), signed, d + 1)
        return None if a is None or b is None else z3.If(v.arg(0), a, b)
    if k == z3.Z3_OP_ZERO_EXT:
        return ite_real(v.arg(0), False, d + 1)
    return None


def is_square(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and e.arg(0).eq(e.arg(1))


class IntReal:
    """The real number scale * uint(bv) + off  (bv unsigned, off Fraction or
    z3 Real).  Lets fptoui(x * 2^k) be resolved structurally."""
    __slots__ = ("bv", "scale", "off")

    def __init__(self, bv, scale, off):
        self.bv, self.scale, self.off = bv, scale, off


class RealDom:
    name = "real"

    def __init__(self, eng):
        self.E = eng
        self.pow = z3.Function("pow_", z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.ufs = {}

    # -- representation
    def const(self, f, w=64):
        if type(f) is Fraction:
            return f
        if f != f or f in (INF, -INF):
            return f
        return Fraction(f)

    def is_conc(self, v):
        return type(v) is Fraction or type(v) is float

    def lift(self, v):
        if type(v) is Fraction:
            return z3.RealVal(v) if v.denominator != 1 else z3.RealVal(v.numerator)
        if type(v) is IntReal:
            o = v.off
            r = z3.ToReal(z3.BV2Int(v.bv, False)) * self.lift(v.scale)
            if not (type(o) is Fraction and o == 0):
                r = r + self.lift(o)
            return r
        return v

    def fresh(self, name, w=64):
        return z3.Real(name)

    def _binspecial(self, op, a, b):
        """At least one operand is inf/nan (python float)."""
        if (special(a) and a != a) or (special(b) and b != b):
            return NAN
        sa = a if special(a) else None
        sb = b if special(b) else None
        if op == "add" or op == "sub":
            if op == "sub" and sb is not None:
                sb = -sb
            if sa is not None and sb is not None:
                return sa + sb
            return sa if sa is not None else sb
        if op == "mul":
            if sa is not None and sb is not None:
                return sa * sb
            s, o = (sa, b) if sa is not None else (sb, a)
            sg = self.sign_of(o)
            return NAN if sg == 0 else s * sg
        if op == "div":
            if sa is not None and sb is not None:
                return NAN
            if sb is not None:
                return Fraction(0)
            sg = self.sign_of(b)
            return sa * (sg if sg != 0 else 1)
        raise AssertionError

    def sign_of(self, o):
        if self.is_conc(o):
            return (o > 0) - (o < 0)
        e = self.lift(o)
        if self.E.decide(e > 0):
            return 1
        if self.E.decide(e == 0):
            return 0
        return -1

    def bin(self, op, a, b, w=64):
        ta, tb = type(a), type(b)
        if ta is float or tb is float:
            return self._binspecial(op, a, b)
        if ta is Fraction and tb is Fraction:
            if op == "add":
                return a + b
            if op == "sub":
                return a - b
            if op == "mul":
                return a * b
            if b == 0:
                if a == 0:
                    return NAN
                return INF if a > 0 else -INF
            return a / b
        if ta is IntReal or tb is IntReal:
            r = self._intreal(op, a, b, ta, tb)
            if r is not None:
                return r
        if op == "add":
            if ta is Fraction and a == 0:
                return b
            if tb is Fraction and b == 0:
                return a
            return self.lift(a) + self.lift(b)
        if op == "sub":
            if tb is Fraction and b == 0:
                return a
            la, lb = self.lift(a), self.lift(b)
            if la.eq(lb):
                return Fraction(0)
            return la - lb
        if op == "mul":
            if ta is Fraction:
                if a == 0:
                    return a
                if a == 1:
                    return b
            if tb is Fraction:
                if b == 0:
                    return b
                if b == 1:
                    return a
            return self.lift(a) * self.lift(b)
        if op == "div":
            if tb is Fraction:
                if b == 0:
                    sg = self.sign_of(a)
                    return NAN if sg == 0 else sg * INF
                if b == 1:
                    return a
                return self.lift(a) * self.lift(1 / b)
            lb = self.lift(b)
            if not self.E.known_nonzero(lb):
                if self.E.decide(lb == 0):
                    sg = self.sign_of(a)
                    return NAN if sg == 0 else sg * INF
            if ta is Fraction and a == 0:
                return a
            la = self.lift(a)
            if la.eq(lb):
                return Fraction(1)
            return la / lb
        raise AssertionError(op)

    def _intreal(self, op, a, b, ta, tb):
        if op == "mul":
            if tb is Fraction and ta is IntReal:
                a, b, ta, tb = b, a, tb, ta
            if ta is Fraction and tb is IntReal:
                if a == 0:
                    return a
                if a == 1:
                    return b
                return IntReal(b.bv, b.scale * a, self.bin("mul", b.off, a))
            return None
        if op == "div":
            if ta is IntReal and tb is Fraction and b != 0:
                return IntReal(a.bv, a.scale / b, self.bin("div", a.off, b))
            return None
        if op == "add":
            if ta is IntReal and tb is not IntReal:
                return IntReal(a.bv, a.scale, self.bin("add", a.off, b))
            if tb is IntReal and ta is not IntReal:
                return IntReal(b.bv, b.scale, self.bin("add", b.off, a))
            return None
        if op == "sub":
            if ta is IntReal and tb is not IntReal:
                return IntReal(a.bv, a.scale, self.bin("sub", a.off, b))
            if ta is IntReal and tb is IntReal and a.bv.eq(b.bv) and a.scale == b.scale:
                return self.bin("sub", a.off, b.off)
            return None
        return None

    def neg(self, a):
        if type(a) in (Fraction, float):
            return -a
        return -self.lift(a)

    def cmp(self, pred, a, b):
        # pred: oeq ogt oge olt ole one ord ueq ugt uge ult ule une uno
        if pred in ("true", "false"):
            return 1 if pred == "true" else 0
        if special(a) or special(b):
            if (special(a) and a != a) or (special(b) and b != b):
                return 1 if pred[0] == "u" else 0
            x = a if special(a) else 0.0
            y = b if special(b) else 0.0
            return self._pycmp(pred, x, y)
        if type(a) is Fraction and type(b) is Fraction:
            return self._pycmp(pred, a, b)
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        p = pred[1:]
        if type(a) is IntReal and type(b) is IntReal and a.scale == b.scale and \
                type(a.off) is Fraction and type(b.off) is Fraction and a.off == b.off and \
                a.scale > 0 and a.bv.size() == b.bv.size():
            x, y = a.bv, b.bv
            return {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: z3.ULT(x, y),
                    "le": lambda: z3.ULE(x, y), "gt": lambda: z3.UGT(x, y),
                    "ge": lambda: z3.UGE(x, y)}[p]()
        r = self._intreal_cmp(p, a, b)
        if r is not None:
            return r
        for x, y, q in ((a, b, p), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p))):
            if type(y) is Fraction and y == 0 and type(x) is not Fraction:
                g = self.E.sign(self.lift(x))
                if g:
                    if abs(g) == 2 or g == 3:
                        v = 0 if g == 3 else g
                        return self._pycmp("o" + q, v, 0)
                    if (g == 1 and q == "ge") or (g == -1 and q == "le"):
                        return 1
                    if (g == 1 and q == "lt") or (g == -1 and q == "gt"):
                        return 0
        a, b = self.lift(a), self.lift(b)
        if a.eq(b):
            return 1 if p in ("eq", "le", "ge") else 0
        if is_square(a) and is_square(b):       # x^2 < y^2  <=>  |x| < |y|
            if p in ("gt", "ge"):
                a, b, p = b, a, {"gt": "lt", "ge": "le"}[p]
            x, y = a.arg(0), self.lift(self.abs(b.arg(0)))
            if p in ("lt", "le"):
                g = self.E.sign(x)
                o = (lambda l, r: l < r) if p == "lt" else (lambda l, r: l <= r)
                if g in (1, 2):
                    return o(x, y)
                if g in (-1, -2):
                    return o(-x, y)
                return z3.And(o(x, y), o(-x, y))
        return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b,
                "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[p]()

    def _intreal_cmp(self, p, a, b):
        """scale*bv + off  <p>  const, with concrete off -> bit-vector comparison."""
        if type(b) is IntReal and type(a) is Fraction:
            flip = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
            return self._intreal_cmp(flip[p], b, a)
        if not (type(a) is IntReal and type(b) is Fraction and type(a.off) is Fraction
                and a.scale > 0):
            return None
        t = (b - a.off) / a.scale      # compare bv with t
        w = a.bv.size()
        mx = (1 << w) - 1
        fl = t.numerator // t.denominator
        isint = t.denominator == 1
        bv = a.bv

        def cst(v):
            return z3.BitVecVal(v, w)
        if p in ("eq", "ne"):
            if not isint or fl < 0 or fl > mx:
                return 1 if p == "ne" else 0
            return bv == cst(fl) if p == "eq" else bv != cst(fl)
        if p == "lt":       # bv < t  <=> bv <= ceil(t)-1
            u = fl - 1 if isint else fl
            return 0 if u < 0 else 1 if u >= mx else z3.ULE(bv, cst(u))
        if p == "le":
            return 0 if fl < 0 else 1 if fl >= mx else z3.ULE(bv, cst(fl))
        if p == "gt":       # bv > t <=> bv >= floor(t)+1
            u = fl + 1
            return 1 if u <= 0 else 0 if u > mx else z3.UGE(bv, cst(u))
        if p == "ge":
            u = fl if isint else fl + 1
            return 1 if u <= 0 else 0 if u > mx else z3.UGE(bv, cst(u))

    @staticmethod
    def _pycmp(pred, x, y):
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        p = pred[1:]
        return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y,
                    "gt": x > y, "ge": x >= y}[p])

    def ite(self, c, a, b):
        if special(a) or special(b):
            return a if self.E.decide(c) else b
        a, b = self.lift(a), self.lift(b)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def abs(self, a):
        if self.is_conc(a):
            return abs(a)
        a = self.lift(a)
        s = self.E.known_sign(a)
        if s > 0:
            return a
        return z3.If(a >= 0, a, -a)

    def conv(self, a, w0, w1):
        return a

    def from_int(self, v, w, signed, fw):
        if isinstance(v, int):
            if signed and v >> (w - 1):
                v -= 1 << w
            return Fraction(v)
        t = ite_real(v, signed)
        if t is not None:
            return t
        if not signed:
            return IntReal(v, Fraction(1), Fraction(0))
        # signed: if the sign bit is known clear treat as unsigned
        if self.E.implied(v >= 0):
            return IntReal(v, Fraction(1), Fraction(0))
        return z3.ToReal(z3.BV2Int(v, True))

    def to_int(self, a, w, signed):
        """fptosi / fptoui (truncation)."""
        if type(a) is Fraction:
            t = int(a)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if t < lo or t > hi:
                return self.E.undef_value("fp-to-int out of range", w)
            return t & ((1 << w) - 1)
        if type(a) is float:
            return self.E.undef_value("fp-to-int of inf/nan", w)
        if type(a) is IntReal and a.scale.denominator == 1 and 0 < a.scale:
            o = a.off
            ok = (type(o) is Fraction and 0 <= o < a.scale and o < 1)
            if not ok and type(o) is not Fraction:
                ok = self.E.implied(z3.And(o >= 0, o < 1))
            if ok:
                sz = a.bv.size()
                k = int(a.scale).bit_length()
                W = max(w, sz + k)
                bv = z3.ZeroExt(W - sz, a.bv) if W > sz else a.bv
                if a.scale != 1:
                    bv = bv * z3.BitVecVal(int(a.scale), W)
                return z3.simplify(z3.Extract(w - 1, 0, bv)) if W > w else bv
        e = self.lift(a)
        # enumerate the feasible integer values (bounded) by forking
        n = self.E.concretize_floor(e)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if n < lo or n > hi:
            return self.E.undef_value("fp-to-int out of range", w)
        return n & ((1 << w) - 1)

    # -- library functions
    def sqrt(self, a):
        if type(a) is float:
            return a if a > 0 else NAN
        if type(a) is Fraction:
            if a < 0:
                return NAN
            n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
            a = self.lift(a)
        else:
            a = z3.simplify(self.lift(a))
            if z3.is_rational_value(a):
                return self.sqrt(a.as_fraction())
            # sqrt(x*x) = |x|
            if z3.is_mul(a) and a.num_args() == 2 and a.arg(0).eq(a.arg(1)):
                return self.abs(a.arg(0))
            if a.decl().kind() == z3.Z3_OP_POWER and str(a.arg(1)) == "2":
                return self.abs(a.arg(0))
            if self.E.known_sign(a) < 0 or not self.E.known_nonneg(a):
                if self.E.decide(a < 0):
                    return NAN
        return self.E.defvar("sqrt", a, lambda s: [s >= 0, s * s == a, (s == 0) == (a == 0)],
                             nonneg=True)

    def cbrt(self, a):
        if type(a) is float:
            return a
        if type(a) is Fraction:
            if a in (0, 1, -1):
                return a
            a = self.lift(a)
        else:
            a = self.lift(a)
        return self.E.defvar("cbrt", a, lambda s: [s * s * s == a, (s > 0) == (a > 0),
                                                   (s == 0) == (a == 0)])

    def powi(self, a, n):
        if n == 0:
            return Fraction(1)
        if n < 0:
            return self.bin("div", Fraction(1), self.powi(a, -n))
        r = a
        for _ in range(n - 1):
            r = self.bin("mul", r, a)
        return r

    def pow_(self, a, b):
        if type(b) is IntReal:
            b = self.lift(b)
        if type(b) is Fraction and b.denominator == 1 and abs(b) <= 64:
            return self.powi(a, int(b))
        if type(a) is float or type(b) is float:
            return NAN
        if type(b) is Fraction and b.denominator == 2 and abs(b) <= 32:
            s = self.sqrt(a)
            return self.powi(s, int(b * 2))
        if type(a) is Fraction and a == 1:
            return a
        # general: x^n * POW(x, frac)
        ipart = 0
        if type(b) is Fraction:
            ipart = b.numerator // b.denominator
            b = b - ipart
            lb = self.lift(b)
        else:
            lb = z3.simplify(self.lift(b), som=True)
            ipart, lb = split_int(lb)
        if abs(ipart) > 16:
            ipart, lb = 0, self.lift(b)
        if type(a) is Fraction and a == 0:
            return Fraction(0) if self.E.decide(self.lift(b) > 0) else INF
        la = z3.simplify(self.lift(a), som=True) if type(a) is not Fraction else self.lift(a)
        if not self.E.known_sign(la) > 0:
            if not self.E.decide(la > 0):
                if self.E.decide(la == 0):
                    full = self.lift(b) + ipart
                    return Fraction(0) if self.E.decide(full > 0) else INF
                return NAN
        # x^(sum c_i e_i) = prod (x^e_i)^c_i for integer c_i
        res = None
        for m in (lb.children() if z3.is_add(lb) else [lb]):
            c = 1
            if z3.is_mul(m) and m.num_args() == 2 and z3.is_rational_value(m.arg(0)) and \
                    m.arg(0).as_fraction().denominator == 1 and abs(m.arg(0).as_fraction()) <= 8:
                c, m = int(m.arg(0).as_fraction()), m.arg(1)
            t = self.pow(la, m)
            self.E.define(t, [t > 0])
            self.E.mark_pos(t)
            t = self.powi(t, c)
            res = t if res is None else self.bin("mul", res, t)
        if ipart:
            return self.bin("mul", self.powi(a, ipart), res)
        return res

    def uf(self, name, a, axioms=None, conc=None):
        if type(a) is float:
            return NAN
        a = self.lift(a)
        a = z3.simplify(a)
        f = self.ufs.get(name)
        if f is None:
            f = self.ufs[name] = z3.Function(name + "_", z3.RealSort(), z3.RealSort())
        t = f(a)
        if axioms:
            self.E.define(t, axioms(t, a))
        return t

    def exp(self, a):
        if type(a) is Fraction and a == 0:
            return Fraction(1)
        t = self.uf("exp", a, lambda t, a: [t > 0, (t >= 1) == (a >= 0), t >= a + 1,
                                            (t == 1) == (a == 0)])
        if not special(t):
            self.E.mark_pos(t)
        return t

    def log(self, a):
        if type(a) is Fraction and a == 1:
            return Fraction(0)
        return self.uf("log", a, lambda t, a: [t <= a - 1])

    def _sincos_axioms(self, a):
        s, c = self.ufs["sin"](a), self.ufs["cos"](a)
        return [s * s + c * c == 1]

    def _mksc(self):
        for n in ("sin", "cos"):
            if n not in self.ufs:
                self.ufs[n] = z3.Function(n + "_", z3.RealSort(), z3.RealSort())

    def sin(self, a):
        if type(a) is Fraction and a == 0:
            return a
        self._mksc()
        return self.uf("sin", a, lambda t, x: self._sincos_axioms(x) + [t <= 1, t >= -1])

    def cos(self, a):
        if type(a) is Fraction and a == 0:
            return Fraction(1)
        self._mksc()
        return self.uf("cos", a, lambda t, x: self._sincos_axioms(x) + [t <= 1, t >= -1])

    def tan(self, a):
        return self.bin("div", self.sin(a), self.cos(a))

    def tanh(self, a):
        return self.uf("tanh", a, lambda t, x: [t < 1, t > -1, (t > 0) == (x > 0),
                                                (t == 0) == (x == 0)])

    def asinh(self, a):
        return self.uf("asinh", a, lambda t, x: [(t > 0) == (x > 0), (t == 0) == (x == 0)])

    def atan2(self, y, x):
        if special(y) or special(x):
            return NAN
        y, x = z3.simplify(self.lift(y)), z3.simplify(self.lift(x))
        f = self.ufs.setdefault("atan2", z3.Function("atan2_", z3.RealSort(), z3.RealSort(),
                                                     z3.RealSort()))
        t = f(y, x)
        self._mksc()
        s, c = self.ufs["sin"](t), self.ufs["cos"](t)
        r = self.E.defvar("hyp", x * x + y * y,
                          lambda v: [v >= 0, v * v == x * x + y * y], nonneg=True)
        self.E.define(t, [z3.Implies(z3.Or(x != 0, y != 0),
                                     z3.And(r * s == y, r * c == x)), s * s + c * c == 1])
        return t

    def acos(self, a):
        if special(a):
            return NAN
        a = z3.simplify(self.lift(a))
        if self.E.decide(z3.Or(a > 1, a < -1)):
            return NAN
        f = self.ufs.setdefault("acos", z3.Function("acos_", z3.RealSort(), z3.RealSort()))
        t = f(a)
        self._mksc()
        s, c = self.ufs["sin"](t), self.ufs["cos"](t)
        self.E.define(t, [c == a, s >= 0, s * s + c * c == 1, t >= 0])
        return t

    def floor(self, a):
        if type(a) is float:
            return a
        if type(a) is Fraction:
            return Fraction(a.numerator // a.denominator)
        n = self.E.concretize_floor(self.lift(a), real_floor=True)
        return Fraction(n)

    def isnan(self, a):
        return 1 if special(a) and a != a else 0

    def minmax(self, a, b, mx):
        if special(a) and a != a:
            return b
        if special(b) and b != b:
            return a
        c = self.cmp("ogt" if mx else "olt", a, b)
        if isinstance(c, int):
            return a if c else b
        return self.ite(c, a, b)

    def bits(self, v, w):
        """bit pattern of a concrete value, or None"""
        if type(v) is Fraction or type(v) is float:
            f = tofloat(v)
            return struct.unpack("<Q" if w == 64 else "<I",
                                 struct.pack("<d" if w == 64 else "<f", f))[0]
        return None

    def from_bits(self, n, w):
        f = struct.unpack("<d" if w == 64 else "<f",
                          n.to_bytes(8 if w == 64 else 4, "little"))[0]
        return self.const(f)


def split_int(e):
    """e (som-simplified real term) = n + rest with integer n taken from the
    rational constant summand (floor)."""
    if z3.is_rational_value(e):
        f = e.as_fraction()
        n = f.numerator // f.denominator
        return n, z3.RealVal(f - n)
    if z3.is_add(e):
        for k in range(e.num_args()):
            c = e.arg(k)
            if z3.is_rational_value(c):
                f = c.as_fraction()
                n = f.numerator // f.denominator
                rest = [e.arg(j) for j in range(e.num_args()) if j != k]
                fr = f - n
                if fr != 0:
                    rest.append(z3.RealVal(fr))
                return n, z3.simplify(z3.Sum(rest) if len(rest) > 1 else rest[0], som=True)
    return 0, e


SORTS = {}


def fpsort(w):
    if w not in SORTS:
        SORTS[w] = {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53),
                    80: z3.FPSort(15, 64)}[w]
    return SORTS[w]


def roundw(f, w):
    if w == 64 or w == 80:
        return f
    try:
        if w == 32:
            return struct.unpack("<f", struct.pack("<f", f))[0]
        return struct.unpack("<e", struct.pack("<e", f))[0]
    except OverflowError:
        return INF if f > 0 else -INF


class IEEEDom:
    name = "ieee"

    def __init__(self, eng):
        self.E = eng
        self.rm = z3.RNE()

    def const(self, f, w=64):
        if type(f) is Fraction:
            f = float(f)
        return roundw(f, w)

    def is_conc(self, v):
        return type(v) is float

    def lift(self, v, w=64):
        if type(v) is float:
            return z3.FPVal(v, fpsort(w))
        return v

    def fresh(self, name, w=64):
        return z3.FP(name, fpsort(w))

    def w_of(self, v):
        s = v.sort()
        return {5: 16, 8: 32, 11: 64, 15: 80}[s.ebits()]

    def bin(self, op, a, b, w=64):
        if type(a) is float and type(b) is float:
            try:
                if op == "add":
                    r = a + b
                elif op == "sub":
                    r = a - b
                elif op == "mul":
                    r = a * b
                else:
                    if b == 0:
                        if a == 0 or a != a:
                            return NAN
                        r = math.copysign(INF, a) * math.copysign(1, b)
                    else:
                        r = a / b
            except OverflowError:
                r = INF
            return roundw(r, w)
        if op in ("mul", "div") and type(b) is float and b == 1.0:
            return a
        if op == "mul" and type(a) is float and a == 1.0:
            return b
        if op == "sub" and type(b) is float and b == 0.0 and math.copysign(1, b) > 0:
            return a
        if op == "div" and type(b) is float and math.frexp(b)[0] in (0.5, -0.5) and \
                abs(b) < 1e100 and abs(b) > 1e-100:
            op, b = "mul", 1.0 / b
        a, b = self.lift(a, w), self.lift(b, w)
        return {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}[op](
            self.rm, a, b)

    def neg(self, a):
        return -a if type(a) is float else z3.fpNeg(a)

    def cmp(self, pred, a, b):
        if pred in ("true", "false"):
            return 1 if pred == "true" else 0
        if type(a) is float and type(b) is float:
            uno = a != a or b != b
            if pred == "uno":
                return int(uno)
            if pred == "ord":
                return int(not uno)
            if uno:
                return 1 if pred[0] == "u" else 0
            return RealDom._pycmp(pred, a, b)
        w = self.w_of(a if type(a) is not float else b)
        a, b = self.lift(a, w), self.lift(b, w)
        p = pred[1:]
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == "uno":
            return nan
        if pred == "ord":
            return z3.Not(nan)
        f = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}
        if pred[0] == "o":
            if p == "ne":
                return z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))
            return f[p](a, b)
        inv = {"eq": "one", "ne": "oeq", "lt": "oge", "le": "ogt", "gt": "ole", "ge": "olt"}[p]
        r = self.cmp(inv, a, b)
        return z3.Not(r)

    def ite(self, c, a, b):
        if type(a) is float and type(b) is float:
            w = self.E.cur_fp_w
        else:
            w = self.w_of(a if type(a) is not float else b)
        return z3.If(c, self.lift(a, w), self.lift(b, w))

    def abs(self, a):
        return abs(a) if type(a) is float else z3.fpAbs(a)

    def conv(self, a, w0, w1):
        if type(a) is float:
            return roundw(a, w1)
        return z3.fpFPToFP(self.rm, a, fpsort(w1))

    def from_int(self, v, w, signed, fw):
        if isinstance(v, int):
            if signed and v >> (w - 1):
                v -= 1 << w
            return roundw(float(v), fw)
        if signed:
            return z3.fpSignedToFP(self.rm, v, fpsort(fw))
        return z3.fpUnsignedToFP(self.rm, v, fpsort(fw))

    def to_int(self, a, w, signed):
        if type(a) is float:
            if a != a or a in (INF, -INF):
                return self.E.undef_value("fp-to-int of inf/nan", w)
            t = int(a)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if t < lo or t > hi:
                return self.E.undef_value("fp-to-int out of range", w)
            return t & ((1 << w) - 1)
        sw = self.w_of(a)
        # out-of-range conversion is undefined behaviour: report it
        if signed:
            lo, hi = -float(1 << (w - 1)), float(1 << (w - 1))
            bad = z3.Or(z3.fpIsNaN(a), z3.fpLT(a, self.lift(roundw(lo, sw), sw)),
                        z3.fpGEQ(a, self.lift(roundw(hi, sw), sw)))
        else:
            bad = z3.Or(z3.fpIsNaN(a), z3.fpLEQ(a, self.lift(-1.0, sw)),
                        z3.fpGEQ(a, self.lift(roundw(float(1 << w), sw), sw)))
        if self.E.check_fptoint and self.E.decide(bad):
            return self.E.undef_value("fp-to-int out of range", w)
        return (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(w))

    def sqrt(self, a):
        if type(a) is float:
            return NAN if a < 0 else math.sqrt(a)
        return z3.fpSqrt(self.rm, a)

    def _py(self, f, *a):
        if all(type(x) is float for x in a):
            try:
                return f(*a)
            except (ValueError, OverflowError, ZeroDivisionError):
                return NAN
        raise NotImplementedError("symbolic libm call in IEEE mode")

    def cbrt(self, a):
        return self._py(lambda x: math.copysign(abs(x) ** (1 / 3.), x), a)

    def pow_(self, a, b):
        if type(b) is float and b == int(b) and 0 < b <= 4:
            r = a
            for _ in range(int(b) - 1):
                r = self.bin("mul", r, a)
            return r
        return self._py(math.pow, a, b)

    def exp(self, a):
        return self._py(math.exp, a)

    def log(self, a):
        return self._py(math.log, a)

    def sin(self, a):
        return self._py(math.sin, a)

    def cos(self, a):
        return self._py(math.cos, a)

    def tan(self, a):
        return self._py(math.tan, a)

    def tanh(self, a):
        return self._py(math.tanh, a)

    def atan2(self, a, b):
        return self._py(math.atan2, a, b)

    def acos(self, a):
        return self._py(math.acos, a)

    def floor(self, a):
        if type(a) is float:
            return float(math.floor(a))
        return z3.fpRoundToIntegral(z3.RTN(), a)

    def isnan(self, a):
        if type(a) is float:
            return int(a != a)
        return z3.fpIsNaN(a)

    def minmax(self, a, b, mx):
        if type(a) is float and type(b) is float:
            if a != a:
                return b
            if b != b:
                return a
            return max(a, b) if mx else min(a, b)
        w = self.w_of(a if type(a) is not float else b)
        return (z3.fpMax if mx else z3.fpMin)(self.lift(a, w), self.lift(b, w))

    def bits(self, v, w):
        if type(v) is float:
            fmt = {64: ("<Q", "<d"), 32: ("<I", "<f"), 16: ("<H", "<e")}[w]
            return struct.unpack(fmt[0], struct.pack(fmt[1], v))[0]
        return z3.fpToIEEEBV(v)

    def from_bits(self, n, w):
        if isinstance(n, int):
            fmt = {64: ("<Q", "<d"), 32: ("<I", "<f"), 16: ("<H", "<e")}[w]
            return struct.unpack(fmt[1], struct.pack(fmt[0], n))[0]
        return z3.fpBVToFP(n, fpsort(w))
