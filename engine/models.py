"""Models of external functions: harness interface, C library, LLVM
intrinsics, C++ runtime, MPI with virtual ranks."""
import re
from fractions import Fraction

import z3

import poly
from fpdom import IntReal, special
from irparse import F32, F64, IntTy, UNDEF
from sym import (FBits, PathEnd, RankBlock, RankYield, Unsupported, bvv, is_sym, mask, new_result, sgn,
                 simp_bool, to_bool)

M64 = (1 << 64) - 1
I8, I32, I64 = IntTy(8), IntTy(32), IntTy(64)


# ------------------------------------------------------------------ helpers
def cstr(E, p):
    out = bytearray()
    if p is UNDEF:
        return "?"
    while True:
        b = E.load(I8, p)
        if b is UNDEF:
            raise Unsupported("uninitialised string")
        b = E.concretize(b, "string byte")
        if b == 0:
            break
        out.append(b)
        p += 1
        if len(out) > 4096:
            raise Unsupported("long string")
    return out.decode("latin1")


def key_for(E, label):
    st = E.st
    rk = st.cur if st.ranks is not None else -1
    k = "%s%s" % (label, "" if rk < 0 else "@%d" % rk)
    n = st.names.get(k, 0)
    st.names[k] = n + 1
    return "%s#%d" % (k, n)


def v_real(E, a, rty):
    nm = key_for(E, cstr(E, a[0]))
    v = E.dom.fresh(nm)
    E.st.inputs.append((nm, "real", v))
    return v


def v_float(E, a, rty):
    nm = key_for(E, cstr(E, a[0]))
    v = E.dom.fresh(nm, 32)
    E.st.inputs.append((nm, "float", v))
    return v


def v_fix(E, a, rty):
    """v_fix(name, bits, fb, nfrac): real = lo + (bv + f) * scale, 0<=f<1 ; see verif.h"""
    nm = key_for(E, cstr(E, a[0]))
    bits = a[1]
    bv = z3.BitVec(nm, bits)
    scale = Fraction(1, 1 << bits)
    if a[2]:
        f = z3.Real(nm + "!f")
        E.st.pc.append(f >= 0)
        E.st.pc.append(f < 1)
        E.st.model = None
        r = IntReal(bv, scale, f * z3.RealVal(scale))
    else:
        r = IntReal(bv, scale, Fraction(0))
    if E.mode != "real":
        raise Unsupported("v_fix in ieee mode")
    E.st.inputs.append((nm, "intreal", r))
    return r


def v_int(w):
    def f(E, a, rty):
        nm = key_for(E, cstr(E, a[0]))
        if w == 1:
            v = z3.Bool(nm)
        else:
            v = z3.BitVec(nm, w)
        E.st.inputs.append((nm, "bv", v))
        return v
    return f


def v_pick(E, a, rty):
    lab = cstr(E, a[0])
    lo, hi = a[1], a[2]
    st = E.st
    # the variable must be the same one when the call is re-executed after a
    # fork: derive it from the occurrence number without consuming it
    rk = st.cur if st.ranks is not None else -1
    k = "%s%s" % (lab, "" if rk < 0 else "@%d" % rk)
    n = st.names.get(k, 0)
    nm = "%s#%d" % (k, n)
    v = z3.BitVec(nm, 64)
    lo, hi = sgn(lo, 64), sgn(hi, 64)
    ov = E.opts.get("picks", {}).get(lab)
    if ov is not None:
        lo, hi = max(lo, ov[0]), min(hi, ov[1])
    if hi < lo:
        raise PathEnd("infeasible")
    key = ("pick", nm)
    if lo == hi:
        val = lo
        st.pc.append(v == lo)
    elif key in st.conc:
        val = st.conc[key][1]
    else:
        from sym import Fork
        raise Fork(key, v, [(v == z3.BitVecVal(q, 64), q) for q in range(lo, hi + 1)])
    st.names[k] = n + 1
    st.inputs.append((nm, "bv", v))
    return val & M64


def v_conc(E, a, rty):
    return E.concretize(a[0], "v_conc")


def v_assume(E, a, rty):
    c = a[0]
    if c is UNDEF:
        raise Unsupported("assume of undef")
    c = simp_bool(to_bool(c))
    if c is True:
        return
    if c is False:
        raise PathEnd("infeasible")
    if not E.feasible(c):
        raise PathEnd("infeasible")
    E.add_pc(c)


def v_check(E, a, rty):
    lab = cstr(E, a[1])
    c = a[0]
    E.check_assert(c, lab)


def v_reach(E, a, rty):
    lab = cstr(E, a[0])
    if lab not in E.reached:
        r, m = E.solver.check(E.st.pc, [], 10000)
        if r == "unknown":
            r, m = E.solver.check_fresh(E.st.pc, [], 10000)
        if r == "unsat":
            raise PathEnd("infeasible")
        E.reached[lab] = r


def resolve_ites(E, e, limit=40):
    for _ in range(limit):
        t = poly.find_ite(e)
        if t is None:
            return e
        c = E.decide(t.arg(0))
        e = z3.substitute(e, (t, t.arg(1) if c else t.arg(2)))
    return e


def undef_check(E, lab):
    r = E.results.setdefault(lab, new_result())
    r["hit"] += 1
    E.report("check", lab)
    raise PathEnd("violated", lab)


def v_check_eq(E, a, rty):
    x, y, lab = a[0], a[1], cstr(E, a[2])
    if x is UNDEF or y is UNDEF:
        undef_check(E, lab)
    if E.mode != "real":
        c = E.dom.cmp("oeq", x, y)
        return E.check_assert(c, lab)
    if special(x) or special(y):
        return E.check_assert(1 if special(x) and special(y) and x == y else 0, lab)
    d = E.dom.bin("sub", x, y)
    if type(d) is Fraction:
        return E.check_assert(1 if d == 0 else 0, lab)
    d = E.dom.lift(d)
    d = resolve_ites(E, d)
    nf, n = poly.numerator(E, d)
    lx = E.dom.lift(x)
    strong = [z3.Or(d > z3.Q(1, 1000), d < z3.Q(-1, 1000)),
              z3.Or(d > z3.Q(1, 100000), d < z3.Q(-1, 100000))]
    if n is not None:
        if not n:
            # closed by the normal form: hand the solver the (now ground) query
            return E.check_assert(d == 0, lab, simplified=z3.BoolVal(False))
        ne = nf.to_expr(n)
        return E.check_assert(d == 0, lab, strong=strong, simplified=(ne != 0))
    return E.check_assert(d == 0, lab, strong=strong)


def relax_poly(E, nf, nn, tol):
    """Linear relaxation of |p| > tol: every monomial becomes a variable bounded
    by the bounds of its atoms on this path."""
    bound = {}
    for m in nn:
        for (i, _) in m:
            if i in bound:
                continue
            x = nf.atoms[i]
            for b in (1, 2, 4, 16):
                if not E.feasible(z3.Or(x > b, x < -b)):
                    bound[i] = b
                    break
            else:
                return None
    cs, terms = [], []
    for k, (m, c) in enumerate(nn.items()):
        b = 1
        for (i, ex) in m:
            b *= bound[i] ** ex
        v = z3.Real("relax!%d" % k)
        cs += [v <= b, v >= -b] if m else [v == 1]
        terms.append(z3.RealVal(c) * v)
    s = z3.Sum(terms)
    return cs + [z3.Or(s > z3.RealVal(tol), s < -z3.RealVal(tol))]


def v_check_near(E, a, rty):
    """|x-y| <= tol"""
    x, y, tol, lab = a[0], a[1], a[2], cstr(E, a[3])
    if x is UNDEF or y is UNDEF or tol is UNDEF:
        undef_check(E, lab)
    if special(x) or special(y):
        return E.check_assert(1 if special(x) and special(y) and x == y else 0, lab)
    if E.mode != "real":
        d = E.dom.abs(E.dom.bin("sub", x, y))
        return E.check_assert(E.dom.cmp("ole", d, tol), lab)
    d = E.dom.bin("sub", x, y)
    if type(d) is Fraction and type(tol) is Fraction:
        return E.check_assert(1 if abs(d) <= tol else 0, lab)
    d, t = E.dom.lift(d), E.dom.lift(tol)
    d = resolve_ites(E, d)
    nf, n = poly.numerator(E, d)
    if n is not None and not n:
        return E.check_assert(z3.And(t >= 0), lab)
    relaxed = None
    if n is not None:
        # a polynomial difference is cheaper to bound in normal form
        try:
            nn, dd = nf.conv(d)
            if len(dd) == 1 and () in dd:
                nn = {m: c / dd[()] for m, c in nn.items()}
                d2 = nf.to_expr(nn)
                d = d2
                if type(tol) is Fraction and len(nn) > 2:
                    relaxed = relax_poly(E, nf, nn, tol)
        except poly.TooBig:
            pass
    strong = [z3.Or(d > t + z3.Q(1, 1000), d < -t - z3.Q(1, 1000)),
              z3.Or(d > t + z3.Q(1, 100000), d < -t - z3.Q(1, 100000))]
    return E.check_assert(z3.And(d <= t, d >= -t), lab, strong=strong, relaxed=relaxed)


def v_check_le(E, a, rty):
    x, y, lab = a[0], a[1], cstr(E, a[2])
    if x is UNDEF or y is UNDEF:
        undef_check(E, lab)
    c = E.dom.cmp("ole", x, y)
    if E.mode != "real" or special(x) or special(y) or isinstance(c, int):
        return E.check_assert(c, lab)
    d = E.dom.bin("sub", x, y)
    strong = None
    if type(d) is not Fraction:
        d = E.dom.lift(d)
        g = E.sign(z3.simplify(d))
        if g in (-1, -2, 3):
            return E.check_assert(c, lab, simplified=z3.And(d > 0, z3.BoolVal(False)))
        strong = [d > z3.Q(1, 1000), d > z3.Q(1, 100000)]
    return E.check_assert(c, lab, strong=strong)


def v_isnan(E, a, rty):
    if a[0] is UNDEF:
        return 1
    if E.mode == "real":
        return 1 if special(a[0]) else 0
    r = E.dom.isnan(a[0])
    return r


def v_defined(E, a, rty):
    """1 when the n bytes at p are all initialised"""
    p, n = a[0], a[1]
    o, off = E.locate(p, n, False)
    for q in range(n):
        if E.byte_defined(o, off + q) is False:
            return 0
    return 1


def v_symbolic(E, a, rty):
    return 1


def v_ranks(E, a, rty):
    n = a[0]
    E.spawn_ranks(n, a[1], a[2])
    return None


# --------------------------------------------------------------- C library
def malloc(E, a, rty):
    n = E.concretize(a[0], "allocation size")
    if n > 1 << 30:
        E.report("mem", "allocation of %d bytes" % n)
        raise PathEnd("mem")
    return E.new_obj(n, "heap[%d]" % n, "heap")


def calloc(E, a, rty):
    n = E.concretize(a[0], "n") * E.concretize(a[1], "size")
    return E.new_obj(n, "heap[%d]" % n, "heap", 0)


def realloc(E, a, rty):
    n = E.concretize(a[1], "allocation size")
    p = E.new_obj(n, "heap[%d]" % n, "heap")
    if a[0] != 0:
        o, off = E.locate(a[0], 0, False)
        E.memcpy(p, a[0], min(n, o.size))
        E.st.objs[o.id] = "freed"
    return p


def free(E, a, rty):
    p = a[0]
    if p is UNDEF:
        E.report("mem", "free of an uninitialised pointer")
        raise PathEnd("mem")
    p = E.concretize(p, "freed pointer") if not isinstance(p, int) else p
    if p == 0:
        return
    oid = p >> 32
    o = E.st.objs.get(oid)
    if o is None or o == "freed" or o.kind != "heap" or (p & 0xffffffff) != 1 << 20:
        E.report("mem", "invalid or double free")
        raise PathEnd("mem")
    E.st.objs[oid] = "freed"


def do_memcpy(E, a, rty):
    E.memcpy(a[0], a[1], a[2])
    return a[0]


def do_memset(E, a, rty):
    v = a[1]
    E.memset(a[0], v if v is UNDEF or not isinstance(v, int) else v & 255, a[2])
    return a[0]


def memcmp(E, a, rty):
    n = E.concretize(a[2], "memcmp length")
    w = 32
    acc = None
    for i in range(n):
        x, y = E.load(I8, E.padd(a[0], i)), E.load(I8, E.padd(a[1], i))
        if x is UNDEF or y is UNDEF:
            E.report("ub", "memcmp of uninitialised bytes")
            raise PathEnd("ub")
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (x - y) & mask(32)
            continue
        if not E.decide(bvv(x, 8) == bvv(y, 8)):
            return 1 if E.decide(z3.UGT(bvv(x, 8), bvv(y, 8))) else mask(32)
    return 0


def strlen(E, a, rty):
    n = 0
    p = a[0]
    while True:
        b = E.load(I8, p)
        if b is UNDEF:
            E.report("ub", "strlen of uninitialised bytes")
            raise PathEnd("ub")
        if isinstance(b, int):
            if b == 0:
                return n
        elif E.decide(b == 0):
            return n
        n += 1
        p += 1


def strcmp(E, a, rty, lim=None):
    i = 0
    while lim is None or i < lim:
        x, y = E.load(I8, E.padd(a[0], i)), E.load(I8, E.padd(a[1], i))
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (x - y) & mask(32)
            if x == 0:
                return 0
        else:
            if not E.decide(bvv(x, 8) == bvv(y, 8)):
                return 1 if E.decide(z3.UGT(bvv(x, 8), bvv(y, 8))) else mask(32)
            if E.decide(bvv(x, 8) == 0):
                return 0
        i += 1
    return 0


def strstr_(E, a, rty):
    # one path per place of the first match (not per comparison)
    n = strlen(E, [a[0]], None)
    k = strlen(E, [a[1]], None)
    pat = [E.load(I8, E.padd(a[1], i)) for i in range(k)]
    txt = [E.load(I8, E.padd(a[0], i)) for i in range(n)]
    for i in range(n - k + 1):
        cs = []
        for x, y in zip(txt[i:i + k], pat):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    break
            else:
                cs.append(bvv(x, 8) == bvv(y, 8))
        else:
            if not cs or E.decide(z3.And(cs)):
                return E.padd(a[0], i)
    return 0


def strncmp(E, a, rty):
    return strcmp(E, a, rty, a[2])


def assert_fail(E, a, rty):
    E.report("assert", "assertion failed: " + cstr(E, a[0]))
    raise PathEnd("assert")


def abort_(E, a, rty):
    E.report("abort", "abort() reached")
    raise PathEnd("abort")


def exit_(E, a, rty):
    E.report("exit", "exit() reached")
    raise PathEnd("exit")


def throw(what):
    def f(E, a, rty):
        E.report("throw", "exception: " + what)
        raise PathEnd("throw")
    return f


def nop0(E, a, rty):
    if rty is None or rty.k == "void":
        return None
    if rty.k == "float":
        return E.dom.const(0.0, rty.w)
    return 0


def ret_first(E, a, rty):
    return a[0] if a else 0


def undef_arg(f):
    def g(E, a, rty):
        if any(x is UNDEF for x in a):
            return UNDEF
        return f(E, a, rty)
    return g


def elementwise(f):
    """lift a scalar model to vector types"""
    def g(E, a, rty):
        if rty.k == "vec":
            out = []
            for i in range(rty.n):
                args = [x[i] if isinstance(x, list) else x for x in a]
                out.append(UNDEF if any(q is UNDEF for q in args) else f(E, args, rty.el))
            return out
        if any(x is UNDEF for x in a):
            return UNDEF
        return f(E, a, rty)
    return g


def fn1(name):
    return elementwise(lambda E, a, rty: getattr(E.dom, name)(a[0]))


def dfloor(E, a, rty):
    return E.dom.floor(a[0])


def dceil(E, a, rty):
    return E.dom.neg(E.dom.floor(E.dom.neg(a[0])))


def dround(E, a, rty):
    # half away from zero
    h = Fraction(1, 2) if E.mode == "real" else 0.5
    z = E.dom.cmp("oge", a[0], E.dom.const(0.0))
    if not isinstance(z, int):
        z = E.decide(z)
    if z:
        return E.dom.floor(E.dom.bin("add", a[0], h))
    return E.dom.neg(E.dom.floor(E.dom.bin("sub", h, a[0])))


def dtrunc(E, a, rty):
    z = E.dom.cmp("oge", a[0], E.dom.const(0.0))
    if not isinstance(z, int):
        z = E.decide(z)
    return E.dom.floor(a[0]) if z else E.dom.neg(E.dom.floor(E.dom.neg(a[0])))


def copysign(E, a, rty):
    x, y = a
    c = E.dom.cmp("olt", y, E.dom.const(0.0))
    ax = E.dom.abs(x)
    if isinstance(c, int):
        return E.dom.neg(ax) if c else ax
    return E.dom.ite(c, E.dom.neg(ax), ax)


def minmax(mx):
    return elementwise(lambda E, a, rty: E.dom.minmax(a[0], a[1], mx))


def fma(E, a, rty):
    w = rty.w
    return E.dom.bin("add", E.dom.bin("mul", a[0], a[1], w), a[2], w)


def imm(op):
    def f(E, a, rty):
        x, y = a[0], a[1]
        w = rty.w
        if isinstance(x, int) and isinstance(y, int):
            if op[0] == "s":
                p, q = sgn(x, w), sgn(y, w)
            else:
                p, q = x, y
            if op[1:] == "max":
                return x if p >= q else y
            return x if p <= q else y
        x, y = bvv(x, w), bvv(y, w)
        c = {"umax": lambda: z3.UGE(x, y), "umin": lambda: z3.ULE(x, y),
             "smax": lambda: x >= y, "smin": lambda: x <= y}[op]()
        return z3.If(c, x, y)
    return elementwise(f)


def iabs(E, a, rty):
    x = a[0]
    w = rty.w
    if isinstance(x, int):
        return abs(sgn(x, w)) & mask(w)
    return z3.If(x >= 0, x, -x)


def ctlz(E, a, rty):
    x, w = a[0], rty.w
    if isinstance(x, int):
        return w - x.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def cttz(E, a, rty):
    x, w = a[0], rty.w
    if isinstance(x, int):
        return w if x == 0 else (x & -x).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r


def ctpop(E, a, rty):
    x, w = a[0], rty.w
    if isinstance(x, int):
        return bin(x).count("1")
    return z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]))


def bswap(E, a, rty):
    x, w = a[0], rty.w
    if isinstance(x, int):
        return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])


def fsh(left):
    def f(E, a, rty):
        x, y, s = a
        w = rty.w
        if all(isinstance(q, int) for q in a):
            s %= w
            v = (x << w) | y
            return ((v << s) >> w) & mask(w) if left else (v >> s) & mask(w)
        if not isinstance(s, int):
            s = z3.URem(s, z3.BitVecVal(w, w))
        else:
            s = z3.BitVecVal(s % w, w)
        v = z3.Concat(bvv(x, w), bvv(y, w))
        s2 = z3.ZeroExt(w, s)
        if left:
            return z3.simplify(z3.Extract(2 * w - 1, w, v << s2))
        return z3.simplify(z3.Extract(w - 1, 0, z3.LShR(v, s2)))
    return f


def with_overflow(op):
    def f(E, a, rty):
        x, y = a[0], a[1]
        w = rty.fields[0].w
        sg = op[0] == "s"
        if isinstance(x, int) and isinstance(y, int):
            p, q = (sgn(x, w), sgn(y, w)) if sg else (x, y)
            r = {"add": p + q, "sub": p - q, "mul": p * q}[op[1:]]
            ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if sg else not 0 <= r < (1 << w)
            return [r & mask(w), int(ov)]
        W = 2 * w
        ext = z3.SignExt if sg else z3.ZeroExt
        X, Y = ext(w, bvv(x, w)), ext(w, bvv(y, w))
        R = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op[1:]]
        lo = z3.Extract(w - 1, 0, R)
        ov = z3.simplify(ext(w, lo) != R)
        return [z3.simplify(lo), ov]
    return undef_arg(f)


def usat(op):
    def f(E, a, rty):
        x, y = a
        w = rty.w
        if isinstance(x, int) and isinstance(y, int):
            r = x + y if op == "add" else x - y
            return min(max(r, 0), mask(w))
        x, y = bvv(x, w), bvv(y, w)
        if op == "sub":
            return z3.If(z3.UGE(x, y), x - y, z3.BitVecVal(0, w))
        return z3.If(z3.ULT(x + y, x), z3.BitVecVal(mask(w), w), x + y)
    return elementwise(f)


def scmp(sg):
    def f(E, a, rty):
        raise Unsupported("llvm.scmp")
    return f


def vreduce(op):
    from compile import int_binop

    def f(E, a, rty):
        v = a[0]
        if v is UNDEF or any(x is UNDEF for x in v):
            return UNDEF
        fn = int_binop(E, op, rty.w)
        r = v[0]
        for x in v[1:]:
            r = fn(r, x)
        return r
    return f


def vreduce_f(op):
    def f(E, a, rty):
        v = a[-1]
        r = a[0] if len(a) == 2 else None
        for x in v:
            r = x if r is None else E.dom.bin(op, r, x, rty.w)
        return r
    return f


def powi(E, a, rty):
    n = sgn(a[1], 32)
    if E.mode == "real":
        return E.dom.powi(a[0], n)
    r = 1.0
    for _ in range(abs(n)):
        r = E.dom.bin("mul", r, a[0], rty.w)
    return E.dom.bin("div", 1.0, r, rty.w) if n < 0 else r


def dpow(E, a, rty):
    return E.dom.pow_(a[0], a[1])


def hypot(E, a, rty):
    d = E.dom
    return d.sqrt(d.bin("add", d.bin("mul", a[0], a[0]), d.bin("mul", a[1], a[1])))


def modf(E, a, rty):
    raise Unsupported("modf")


def dlog10(E, a, rty):
    d = E.dom
    if E.mode == "real":
        c = E.dom.const(2.302585092994045684)
        return d.bin("div", d.log(a[0]), c)
    return d._py(__import__("math").log10, a[0])


def dlog2(E, a, rty):
    d = E.dom
    if E.mode == "real":
        if isinstance(a[0], (int, float, Fraction)) and a[0] > 0:
            return d.const(__import__("math").log2(a[0]))
        c = E.dom.const(0.693147180559945309)
        return d.bin("div", d.log(a[0]), c)
    return d._py(__import__("math").log2, a[0])


def fmod_(E, a, rty):
    return E.fmod(a[0], a[1], rty.w)


def rand_(E, a, rty):
    nm = key_for(E, "rand")
    v = z3.BitVec(nm, 32)
    E.add_pc(v >= 0)
    E.st.inputs.append((nm, "bv", v))
    return v


def expect(E, a, rty):
    return a[0]


def llvm_assume(E, a, rty):
    return None


def lifetime_end(E, a, rty):
    """the object is gone: what it held is undefined from here on"""
    p = a[1] if len(a) > 1 else a[0]
    try:
        o, off = E.locate(p, 1, True)
    except Exception:
        return None
    if type(off) is int and off == 0:
        o.cells.clear()
        o.default = None
    return None


def objsize(E, a, rty):
    return M64


def is_constant(E, a, rty):
    return 0


def fpclass(E, a, rty):
    x, msk = a[0], a[1]
    if x is UNDEF:
        return UNDEF
    if E.mode == "real":
        c = 0
        if special(x):
            c = 3 if x != x else (0x200 if x > 0 else 0x4)
        else:
            c = 0x1f8
            if type(x) is not Fraction:
                if msk & 0x1f8 == 0x1f8:
                    return 1
                if msk & 0x1f8 == 0:
                    return 0
                raise Unsupported("is.fpclass")
            return int(bool(msk & (0x60 if x == 0 else 0x108 if x > 0 else 0x18)))
        return int(bool(msk & c))
    if type(x) is float:
        import math
        c = 3 if x != x else 0x200 if x == math.inf else 4 if x == -math.inf else \
            0x60 if x == 0 else 0x180 if x > 0 else 0x18
        return int(bool(msk & c))
    rs = []
    if msk & 3 == 3:
        rs.append(z3.fpIsNaN(x))
    if msk & 0x204 == 0x204:
        rs.append(z3.fpIsInf(x))
    rest = msk & ~0x207
    if rest:
        raise Unsupported("is.fpclass mask %x" % msk)
    return z3.Or(rs) if rs else 0


def guard_acquire(E, a, rty):
    v = E.load(I8, a[0])
    return 0 if v is not UNDEF and v != 0 else 1


def guard_release(E, a, rty):
    E.store(I8, 1, a[0])


FMT = re.compile(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsfeEgGp%])")


def format_c(E, fmt, args):
    """printf formatting of concrete arguments; a conversion whose argument is
    symbolic (or a floating point number) is left as it is."""
    args = list(args)

    def one(m):
        flags, width, prec, ln, c = m.groups()
        if c == "%":
            return "%"
        if not args:
            E.report("mem", "too few arguments for the format")
            return m.group(0)
        v = args.pop(0)
        if not isinstance(v, int):
            return m.group(0)
        if c == "s":
            t = cstr(E, v)
            return ("%" + flags + width + ("." + prec if prec else "") + "s") % t
        if c == "c":
            return chr(v & 255)
        if c not in "diuxX":
            return m.group(0)
        w = 64 if ln in ("l", "ll", "z", "j", "t") else 32
        v &= (1 << w) - 1
        if c in "di" and v >> (w - 1):
            v -= 1 << w
        return ("%" + flags + width + ("." + prec if prec else "") + ("d" if c in "diu" else c)) % v
    return FMT.sub(one, fmt)


def put_cstr(E, p, t):
    b = t.encode("latin1") + b"\0"
    for i, ch in enumerate(b):
        E.store(I8, ch, p + i)


def sprintf_(E, a, rty):
    t = format_c(E, cstr(E, a[1]), a[2:])
    put_cstr(E, a[0], t)
    return len(t)


def snprintf_(E, a, rty):
    t = format_c(E, cstr(E, a[2]), a[3:])
    n = E.concretize(a[1], "buffer size")
    if n:
        put_cstr(E, a[0], t[:n - 1])
    return len(t)


# --------------------------------------------------------------------- MPI
def rank_of(E):
    return E.st.cur if E.st.ranks is not None else 0


def nranks(E):
    return len(E.st.ranks) if E.st.ranks is not None else 1


def tsize(E, t):
    if t & (1 << 30):
        return E.st.extra["types"][t]
    return t & 255


def snap(E, p, n):
    q = E.new_obj(max(n, 1), "mpi message", "mpi")
    if n:
        E.memcpy(q, p, n)
    return q


class Coll:
    """Deposit / collect for a collective operation."""


def collective(E, kind, deposit):
    """Runs deposit() once for this rank; returns {rank: deposited} when all
    ranks have arrived, otherwise deschedules the rank."""
    st = E.st
    r, n = rank_of(E), nranks(E)
    if st.ranks is None:
        return {0: deposit()}
    seqs = st.extra.setdefault("seq", tuple([0] * n))
    mine = seqs[r]
    key = ("coll", mine)
    tab = st.extra.get(key)
    if tab is None:
        tab = {}
    if r not in tab:
        d = deposit()
        tab = dict(tab)
        tab[r] = (kind, d)
        st.extra[key] = tab
        E.rank_progress()
    if len(tab) < n:
        raise RankBlock()
    kinds = set(k for k, _ in tab.values())
    if len(kinds) != 1:
        E.report("mpi", "ranks disagree on the collective operation: " + ", ".join(sorted(map(str, kinds))))
        raise PathEnd("mpi")
    l = list(st.extra["seq"])
    l[r] += 1
    st.extra["seq"] = tuple(l)
    E.rank_progress()
    return {q: d for q, (k, d) in tab.items()}


def elty(t):
    kind, size = t >> 8, t & 255
    if kind == 3:
        return F64 if size == 8 else F32
    return IntTy(size * 8)


def reduce_vals(E, op, t, vals):
    ty = elty(t)
    kind = t >> 8
    r = vals[0]
    for v in vals[1:]:
        if r is UNDEF or v is UNDEF:
            return UNDEF
        if kind == 3:
            if op == 1:
                r = E.dom.bin("add", r, v, ty.w)
            elif op == 2:
                r = E.dom.minmax(r, v, False)
            elif op == 3:
                r = E.dom.minmax(r, v, True)
            elif op == 6:
                r = E.dom.bin("mul", r, v, ty.w)
            else:
                raise Unsupported("MPI op")
        else:
            from compile import int_binop
            if op == 1:
                r = int_binop(E, "add", ty.w)(r, v)
            elif op == 6:
                r = int_binop(E, "mul", ty.w)(r, v)
            elif op in (2, 3):
                nm = ("s" if kind == 1 else "u") + ("min" if op == 2 else "max")
                r = imm(nm)(E, [r, v], ty)
            elif op in (4, 5):
                x, y = bvv(r, ty.w) != 0, bvv(v, ty.w) != 0
                c = z3.simplify(z3.And(x, y) if op == 4 else z3.Or(x, y))
                r = z3.simplify(z3.If(c, z3.BitVecVal(1, ty.w), z3.BitVecVal(0, ty.w)))
                if z3.is_bv_value(r):
                    r = r.as_long()
            else:
                raise Unsupported("MPI op")
    return r


IN_PLACE = M64


def mpi_barrier(E, a, rty):
    collective(E, "barrier", lambda: None)
    return 0


def mpi_bcast(E, a, rty):
    buf, cnt, t, root = a[0], a[1], a[2], a[3]
    n = cnt * tsize(E, t)
    r = rank_of(E)
    d = collective(E, ("bcast", n, root), lambda: snap(E, buf, n) if r == root else None)
    if r != root:
        E.memcpy(buf, d[root], n)
    return 0


def mpi_reduce_common(E, sbuf, rbuf, cnt, t, op, name, root=None):
    s = tsize(E, t)
    if cnt >> 31:
        E.report("mpi", "negative count")
        raise PathEnd("mpi")
    src = rbuf if sbuf == IN_PLACE else sbuf
    d = collective(E, (name, cnt, t, op, root), lambda: snap(E, src, cnt * s))
    return d, s


def store_reduced(E, d, ranks, rbuf, cnt, t, op):
    ty = elty(t)
    s = ty.size()
    for i in range(cnt):
        vals = [E.load(ty, d[q] + i * s) for q in ranks]
        E.store(ty, reduce_vals(E, op, t, vals), E.padd(rbuf, i * s))


def mpi_allreduce(E, a, rty):
    sbuf, rbuf, cnt, t, op = a[:5]
    d, s = mpi_reduce_common(E, sbuf, rbuf, cnt, t, op, "allreduce")
    store_reduced(E, d, sorted(d), rbuf, cnt, t, op)
    return 0


def mpi_reduce(E, a, rty):
    sbuf, rbuf, cnt, t, op, root = a[:6]
    d, s = mpi_reduce_common(E, sbuf, rbuf, cnt, t, op, "reduce", root)
    if rank_of(E) == root:
        store_reduced(E, d, sorted(d), rbuf, cnt, t, op)
    return 0


def mpi_scan(excl):
    def f(E, a, rty):
        sbuf, rbuf, cnt, t, op = a[:5]
        d, s = mpi_reduce_common(E, sbuf, rbuf, cnt, t, op, "scan%d" % excl)
        r = rank_of(E)
        rs = [q for q in sorted(d) if (q < r if excl else q <= r)]
        if rs:
            store_reduced(E, d, rs, rbuf, cnt, t, op)
        return 0
    return f


def mpi_allgather(E, a, rty):
    sbuf, sc, stp, rbuf, rc, rt = a[:6]
    n = rc * tsize(E, rt)
    r = rank_of(E)
    if sbuf == IN_PLACE:
        dep = lambda: snap(E, E.padd(rbuf, r * n), n)
    else:
        if sc * tsize(E, stp) != n:
            E.report("mpi", "allgather send and receive sizes differ")
            raise PathEnd("mpi")
        dep = lambda: snap(E, sbuf, n)
    d = collective(E, ("allgather", n), dep)
    for q in sorted(d):
        if n:
            E.memcpy(E.padd(rbuf, q * n), d[q], n)
    return 0


def ivec(E, p, n):
    out = []
    for i in range(n):
        v = E.load(I32, E.padd(p, 4 * i))
        if v is UNDEF:
            E.report("mpi", "uninitialised count/displacement")
            raise PathEnd("mpi")
        out.append(sgn(E.concretize(v, "MPI count"), 32))
    return out


def mpi_allgatherv(E, a, rty):
    sbuf, sc, stp, rbuf, rcs, dis, rt = a[:7]
    s = tsize(E, rt)
    ns = sc * tsize(E, stp)
    r, n = rank_of(E), nranks(E)
    cs, ds = ivec(E, rcs, n), ivec(E, dis, n)
    if sbuf == IN_PLACE:
        ns = cs[r] * s
        dep = lambda: (ns, snap(E, E.padd(rbuf, ds[r] * s), ns))
    else:
        dep = lambda: (ns, snap(E, sbuf, ns))
    d = collective(E, "allgatherv", dep)
    for q in sorted(d):
        m, buf = d[q]
        if m != cs[q] * s:
            E.report("mpi", "allgatherv: rank sends %d bytes, receiver expects %d" % (m, cs[q] * s))
            raise PathEnd("mpi")
        if m:
            E.memcpy(E.padd(rbuf, ds[q] * s), buf, m)
    return 0


def mpi_gather(E, a, rty):
    sbuf, sc, stp, rbuf, rc, rt, root = a[:7]
    n = sc * tsize(E, stp)
    d = collective(E, ("gather", n, root), lambda: snap(E, sbuf, n))
    if rank_of(E) == root:
        for q in sorted(d):
            if n:
                E.memcpy(E.padd(rbuf, q * rc * tsize(E, rt)), d[q], n)
    return 0


def mpi_gatherv(E, a, rty):
    sbuf, sc, stp, rbuf, rcs, dis, rt, root = a[:8]
    ns = sc * tsize(E, stp)
    d = collective(E, ("gatherv", root), lambda: (ns, snap(E, sbuf, ns)))
    if rank_of(E) == root:
        n = nranks(E)
        s = tsize(E, rt)
        cs, ds = ivec(E, rcs, n), ivec(E, dis, n)
        for q in sorted(d):
            m, buf = d[q]
            if m != cs[q] * s:
                E.report("mpi", "gatherv: count mismatch")
                raise PathEnd("mpi")
            if m:
                E.memcpy(E.padd(rbuf, ds[q] * s), buf, m)
    return 0


def mpi_alltoall(E, a, rty):
    sbuf, sc, stp, rbuf, rc, rt = a[:6]
    n = nranks(E)
    s = sc * tsize(E, stp)
    r = rank_of(E)
    d = collective(E, ("alltoall", s), lambda: snap(E, sbuf, s * n))
    if rc * tsize(E, rt) != s:
        E.report("mpi", "alltoall send and receive sizes differ")
        raise PathEnd("mpi")
    for q in sorted(d):
        if s:
            E.memcpy(E.padd(rbuf, q * s), d[q] + r * s, s)
    return 0


def mpi_alltoallv(E, a, rty):
    sbuf, scs, sds, stp, rbuf, rcs, rds, rt = a[:8]
    n = nranks(E)
    r = rank_of(E)
    ss, rs = tsize(E, stp), tsize(E, rt)
    sc, sd, rc, rd = ivec(E, scs, n), ivec(E, sds, n), ivec(E, rcs, n), ivec(E, rds, n)

    def dep():
        out = []
        for q in range(n):
            m = sc[q] * ss
            out.append((m, snap(E, E.padd(sbuf, sd[q] * ss), m)))
        return out
    d = collective(E, "alltoallv", dep)
    for q in sorted(d):
        m, buf = d[q][r]
        if m != rc[q] * rs:
            E.report("mpi", "alltoallv: rank sends %d bytes, receiver expects %d" % (m, rc[q] * rs))
            raise PathEnd("mpi")
        if m:
            E.memcpy(E.padd(rbuf, rd[q] * rs), buf, m)
    return 0


def neg32(v):
    return sgn(v, 32) if isinstance(v, int) else v


def post_msg(E, dst, tag, p, n):
    st = E.st
    msgs = list(st.extra.get("msgs", ()))
    msgs.append((rank_of(E), neg32(dst), neg32(tag), n, snap(E, p, n)))
    st.extra["msgs"] = tuple(msgs)
    E.rank_progress()


def find_msg(E, src, tag, take=True):
    st = E.st
    me = rank_of(E)
    msgs = st.extra.get("msgs", ())
    for i, m in enumerate(msgs):
        if m[1] == me and (src == -1 or m[0] == src) and (tag == -2 or m[2] == tag):
            if take:
                st.extra["msgs"] = msgs[:i] + msgs[i + 1:]
            return m
    return None


def put_status(E, p, m):
    if isinstance(p, int) and p == 0:
        return
    E.store(I32, m[0] & mask(32), p)
    E.store(I32, m[2] & mask(32), p + 4)
    E.store(I32, 0, p + 8)
    E.store(I32, m[3], p + 12)


def deliver(E, m, buf, cap):
    if m[3] > cap:
        E.report("mpi", "message longer than the receive buffer")
        raise PathEnd("mpi")
    if m[3]:
        E.memcpy(buf, m[4], m[3])
    E.rank_progress()


def mpi_send(E, a, rty):
    cnt = E.concretize(a[1], "count")
    t, dst, tag = a[2], a[3], a[4]
    post_msg(E, dst, tag, a[0], cnt * tsize(E, t))
    return 0


def mpi_isend(E, a, rty):
    mpi_send(E, a, rty)
    E.store(I32, 0, a[6])
    return 0


def mpi_recv(E, a, rty):
    m = find_msg(E, neg32(a[3]), neg32(a[4]))
    if m is None:
        raise RankBlock()
    deliver(E, m, a[0], a[1] * tsize(E, a[2]))
    put_status(E, a[6], m)
    return 0


def mpi_irecv(E, a, rty):
    st = E.st
    n = st.extra.get("nreq", 0) + 1
    st.extra["nreq"] = n
    reqs = dict(st.extra.get("reqs", {}))
    reqs[n] = (rank_of(E), a[0], a[1] * tsize(E, a[2]), neg32(a[3]), neg32(a[4]))
    st.extra["reqs"] = reqs
    E.store(I32, n, a[6])
    return 0


def req_ready(E, rid):
    r = E.st.extra.get("reqs", {}).get(rid)
    if r is None:
        return True
    return find_msg(E, r[3], r[4], take=False) is not None


def req_finish(E, rid, stp):
    reqs = dict(E.st.extra.get("reqs", {}))
    r = reqs.pop(rid, None)
    if r is None:
        return
    m = find_msg(E, r[3], r[4])
    if m is None:
        return False
    E.st.extra["reqs"] = reqs
    deliver(E, m, r[1], r[2])
    put_status(E, stp, m)
    return True


def load_req(E, p):
    v = E.load(I32, p)
    if v is UNDEF:
        E.report("mpi", "wait on an uninitialised request")
        raise PathEnd("mpi")
    return v


def mpi_wait(E, a, rty):
    rid = load_req(E, a[0])
    if rid:
        if not req_ready(E, rid):
            raise RankBlock()
        req_finish(E, rid, a[1])
        E.store(I32, 0, a[0])
    return 0


def mpi_waitall(E, a, rty):
    n = a[0]
    for i in range(n):
        p = E.padd(a[1], 4 * i)
        rid = load_req(E, p)
        if rid:
            if not req_ready(E, rid):
                raise RankBlock()
            req_finish(E, rid, 0 if a[2] == 0 else E.padd(a[2], 16 * i))
            E.store(I32, 0, p)
    return 0


def mpi_sendrecv(E, a, rty):
    (sb, sc, stp, dst, stag, rb, rc, rt, src, rtag, comm, status) = a[:12]
    st = E.st
    r = rank_of(E)
    key = ("sr", r)
    if not st.extra.get(key):
        post_msg(E, dst, stag, sb, sc * tsize(E, stp))
        st.extra[key] = True
    m = find_msg(E, neg32(src), neg32(rtag))
    if m is None:
        raise RankBlock()
    st.extra[key] = False
    deliver(E, m, rb, rc * tsize(E, rt))
    put_status(E, status, m)
    return 0


def mpi_probe(E, a, rty):
    m = find_msg(E, neg32(a[0]), neg32(a[1]), take=False)
    if m is None:
        raise RankBlock()
    put_status(E, a[3], m)
    return 0


def mpi_iprobe(E, a, rty):
    """Whether an available message is visible already is a choice (the
    schedule) for the first opts["sched"] calls of a rank; a rank that sees
    none lets the others run."""
    st = E.st
    m = find_msg(E, neg32(a[0]), neg32(a[1]), take=False)
    r = rank_of(E)
    lab = "iprobe@%d" % r if st.ranks is not None else "iprobe"
    n = st.names.get(lab, 0)
    yk = ("yield", r)
    if m is None and st.ranks is not None and not st.extra.get(yk):
        st.extra[yk] = True
        if E.rank_yield():
            raise RankYield()
    st.extra[yk] = False
    nm = "%s#%d" % (lab, n)
    v = z3.BitVec(nm, 64)
    if m is None:
        f = 0
        idle = st.extra["idle"] = st.extra.get("idle", 0) + 1
        if st.ranks is not None and idle > 300 * len(st.ranks):
            E.report("mpi", "livelock: every rank polls for a message that is never sent")
            raise PathEnd("mpi", "livelock")
    elif st.extra.get(("sched", r), 0) < E.opts.get("sched", 0):
        key = ("pick", nm)
        if key in st.conc:
            f = st.conc[key][1]
        else:
            from sym import Fork
            raise Fork(key, v, [(v == q, q) for q in (1, 0)])
        st.extra[("sched", r)] = st.extra.get(("sched", r), 0) + 1
    else:
        f = 1
    st.names[lab] = n + 1
    st.pc.append(v == f) if ("pick", nm) not in st.conc else None
    st.inputs.append((nm, "bv", v))
    E.store(I32, f, a[3])
    if f:
        put_status(E, a[4], m)
    return 0


def mpi_test(E, a, rty):
    rid = load_req(E, a[0])
    f = 1
    if rid:
        f = 1 if req_ready(E, rid) else 0
        if f:
            req_finish(E, rid, a[2])
            E.store(I32, 0, a[0])
    E.store(I32, f, a[1])
    return 0


def mpi_get_count(E, a, rty):
    n = E.load(I32, E.padd(a[0], 12))
    E.store(I32, n // tsize(E, a[1]), a[2])
    return 0


def mpi_comm_rank(E, a, rty):
    E.store(I32, rank_of(E), a[1])
    return 0


def mpi_comm_size(E, a, rty):
    E.store(I32, nranks(E), a[1])
    return 0


def mpi_type_contig(E, a, rty):
    st = E.st
    t = dict(st.extra.get("types", {}))
    k = (1 << 30) | (len(t) + 1)
    t[k] = a[0] * tsize(E, a[1])
    st.extra["types"] = t
    E.store(I32, k, a[2])
    return 0


def ok(E, a, rty):
    return 0


def mpi_wtime(E, a, rty):
    return E.dom.const(0.0)


def table(E):
    T = {
        "v_real": v_real, "v_float": v_float, "v_fix": v_fix, "v_u64": v_int(64),
        "v_u32": v_int(32), "v_u16": v_int(16), "v_u8": v_int(8), "v_i32": v_int(32),
        "v_i64": v_int(64), "v_bool": v_int(1), "v_pick": v_pick, "v_conc": v_conc,
        "v_assume": v_assume, "v_check": v_check, "v_check_eq": v_check_eq,
        "v_check_near": v_check_near, "v_check_le": v_check_le, "v_reach": v_reach,
        "v_isnan": v_isnan, "v_symbolic": v_symbolic, "v_ranks": v_ranks,
        "v_shared": calloc1, "v_defined": v_defined,
        "malloc": malloc, "calloc": calloc, "realloc": realloc, "free": free,
        "memcpy": do_memcpy, "memmove": do_memcpy, "memset": do_memset, "memcmp": memcmp,
        "bcmp": memcmp, "strlen": strlen, "strcmp": strcmp, "strncmp": strncmp, "strstr": strstr_,
        "__assert_fail": assert_fail, "abort": abort_, "exit": exit_, "_exit": exit_,
        "_Znwm": malloc, "_Znam": malloc, "_ZdlPv": free, "_ZdaPv": free, "_ZdlPvm": free,
        "_ZdaPvm": free, "_ZnwmRKSt9nothrow_t": malloc,
        "_ZnamRKSt9nothrow_t": malloc, "_ZdlPvRKSt9nothrow_t": free,
        "__cxa_atexit": nop0, "__cxa_guard_acquire": guard_acquire,
        "__cxa_guard_release": guard_release, "__cxa_allocate_exception": malloc,
        "__cxa_throw": throw("thrown"), "__cxa_rethrow": throw("rethrown"),
        "__cxa_pure_virtual": abort_, "_ZSt9terminatev": abort_, "__clang_call_terminate": abort_,
        "__cxa_bad_cast": throw("bad_cast"),
        "printf": nop0, "puts": nop0, "putchar": nop0, "fprintf": nop0, "fflush": nop0,
        "sprintf": sprintf_, "snprintf": snprintf_, "rand": rand_, "srand": nop0, "time": nop0,
        "usleep": nop0, "omp_get_thread_num": nop0,
        "omp_get_max_threads": lambda E, a, r: 1, "omp_get_num_threads": lambda E, a, r: 1,
        "omp_set_num_threads": nop0, "omp_get_wtime": nop0,
        "omp_init_lock": nop0, "omp_set_lock": nop0, "omp_unset_lock": nop0,
        "omp_destroy_lock": nop0,
        "pow": elementwise(dpow), "hypot": elementwise(hypot), "fmod": elementwise(fmod_),
        "modf": modf, "log10": elementwise(dlog10), "log2": elementwise(dlog2),
        "powf": elementwise(dpow),
        "MPI_Init": ok, "MPI_Init_thread": ok, "MPI_Finalize": ok, "MPI_Initialized": ok,
        "MPI_Barrier": mpi_barrier, "MPI_Bcast": mpi_bcast, "MPI_Allreduce": mpi_allreduce,
        "MPI_Reduce": mpi_reduce, "MPI_Scan": mpi_scan(0), "MPI_Exscan": mpi_scan(1),
        "MPI_Allgather": mpi_allgather, "MPI_Allgatherv": mpi_allgatherv,
        "MPI_Gather": mpi_gather, "MPI_Gatherv": mpi_gatherv, "MPI_Alltoall": mpi_alltoall,
        "MPI_Alltoallv": mpi_alltoallv, "MPI_Send": mpi_send, "MPI_Ssend": mpi_send,
        "MPI_Isend": mpi_isend, "MPI_Issend": mpi_isend, "MPI_Recv": mpi_recv,
        "MPI_Irecv": mpi_irecv, "MPI_Wait": mpi_wait, "MPI_Waitall": mpi_waitall,
        "MPI_Sendrecv": mpi_sendrecv, "MPI_Probe": mpi_probe, "MPI_Iprobe": mpi_iprobe, "MPI_Test": mpi_test, "MPI_Get_count": mpi_get_count,
        "MPI_Comm_rank": mpi_comm_rank, "MPI_Comm_size": mpi_comm_size,
        "MPI_Type_contiguous": mpi_type_contig, "MPI_Type_commit": ok, "MPI_Type_free": ok,
        "MPI_Wtime": mpi_wtime, "MPI_Abort": abort_,
        "_ZNSt6chrono3_V212steady_clock3nowEv": nop0, "_ZNSt6chrono3_V212system_clock3nowEv": nop0,
    }
    for n, m in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("sin", "sin"),
                 ("cos", "cos"), ("tan", "tan"), ("tanh", "tanh"), ("cbrt", "cbrt"), ("asinh", "asinh"),
                 ("acos", "acos"), ("fabs", "abs"), ("floor", "floor")):
        T[n] = T[n + "f"] = fn1(m)
    T["atan2"] = elementwise(lambda E, a, r: E.dom.atan2(a[0], a[1]))
    T["ceil"] = elementwise(dceil)
    T["round"] = elementwise(dround)
    T["trunc"] = elementwise(dtrunc)
    T["fmin"] = T["fminf"] = minmax(False)
    T["fmax"] = T["fmaxf"] = minmax(True)
    T["copysign"] = elementwise(copysign)
    for k in list(T):
        if k.startswith("MPI_") or k in ("printf", "sprintf", "rand", "MPI_Wtime"):
            try:
                T[k].tag = k.split("(")[0]
            except AttributeError:
                pass
    return T


def calloc1(E, a, rty):
    n = E.concretize(a[0], "size")
    return E.new_obj(n, "shared[%d]" % n, "heap", 0)


INTR = [
    (r"llvm\.(memcpy|memmove)\.", do_memcpy), (r"llvm\.memset\.", do_memset),
    (r"llvm\.lifetime\.end", lifetime_end),
    (r"llvm\.(lifetime|dbg|assume|experimental|donothing|invariant|prefetch)", llvm_assume),
    (r"llvm\.(stacksave|stackrestore)", nop0),
    (r"llvm\.expect\.", expect), (r"llvm\.objectsize", objsize), (r"llvm\.is\.constant", is_constant),
    (r"llvm\.(launder|strip)\.", expect), (r"llvm\.threadlocal\.address", expect),
    (r"llvm\.ptrmask", None),
    (r"llvm\.umax\.", imm("umax")), (r"llvm\.umin\.", imm("umin")),
    (r"llvm\.smax\.", imm("smax")), (r"llvm\.smin\.", imm("smin")),
    (r"llvm\.abs\.", elementwise(iabs)), (r"llvm\.fabs\.", fn1("abs")),
    (r"llvm\.sqrt\.", fn1("sqrt")), (r"llvm\.floor\.", fn1("floor")),
    (r"llvm\.ceil\.", elementwise(dceil)), (r"llvm\.round\.", elementwise(dround)),
    (r"llvm\.trunc\.f", elementwise(dtrunc)), (r"llvm\.exp\.", fn1("exp")),
    (r"llvm\.log\.", fn1("log")), (r"llvm\.log10\.", elementwise(dlog10)), (r"llvm\.log2\.", elementwise(dlog2)),
    (r"llvm\.sin\.", fn1("sin")), (r"llvm\.cos\.", fn1("cos")),
    (r"llvm\.pow\.", elementwise(dpow)), (r"llvm\.powi\.", undef_arg(powi)),
    (r"llvm\.copysign\.", elementwise(copysign)), (r"llvm\.fmuladd\.", elementwise(fma)),
    (r"llvm\.fma\.", elementwise(fma)), (r"llvm\.minnum\.", minmax(False)),
    (r"llvm\.maxnum\.", minmax(True)),
    (r"llvm\.ctlz\.", elementwise(ctlz)), (r"llvm\.cttz\.", elementwise(cttz)),
    (r"llvm\.ctpop\.", elementwise(ctpop)), (r"llvm\.bswap\.", elementwise(bswap)),
    (r"llvm\.fshl\.", elementwise(fsh(True))), (r"llvm\.fshr\.", elementwise(fsh(False))),
    (r"llvm\.uadd\.with", with_overflow("uadd")), (r"llvm\.usub\.with", with_overflow("usub")),
    (r"llvm\.umul\.with", with_overflow("umul")), (r"llvm\.sadd\.with", with_overflow("sadd")),
    (r"llvm\.ssub\.with", with_overflow("ssub")), (r"llvm\.smul\.with", with_overflow("smul")),
    (r"llvm\.usub\.sat", usat("sub")), (r"llvm\.uadd\.sat", usat("add")),
    (r"llvm\.trap", abort_), (r"llvm\.ubsantrap", abort_),
    (r"llvm\.is\.fpclass", fpclass),
    (r"llvm\.vector\.reduce\.fadd", vreduce_f("add")), (r"llvm\.vector\.reduce\.fmul", vreduce_f("mul")),
]


def vr(name):
    m = re.match(r"llvm\.vector\.reduce\.(add|mul|and|or|xor)\.", name)
    return vreduce(m.group(1)) if m else None


STREAM = re.compile(r"basic_ostream|basic_istream|ios_base|basic_ios|basic_filebuf|basic_ofstream|"
                    r"basic_ifstream|basic_stringbuf|stringstream|ostringstream|^_ZSt4endl|"
                    r"^_ZStls|^_ZNSo|^_ZNSi|^_ZSt5flush|^_ZNSt6locale|^_ZSt16__ostream_insert|"
                    r"basic_streambuf|^_ZSt[0-9]+set")


def find(E, name):
    f = E.models.get(name)
    if f is not None:
        return f
    if name.startswith("llvm."):
        f = vr(name)
        if f is None:
            for pat, fn in INTR:
                if re.match(pat, name):
                    f = fn
                    break
        if f is not None:
            E.models[name] = f
        return f
    if name.startswith("_ZSt") and "__throw_" in name:
        f = throw(name)
        E.models[name] = f
        return f
    if STREAM.search(name) and name not in E.m.funcs:
        def g(E_, a, rty):
            return a[0] if a and rty.k == "ptr" else nop0(E_, a, rty)
        g.tag = "iostream (no-op)"
        E.models[name] = g
        return g
    return None
