"""Compile parsed IR functions to lists of Python closures."""
from fractions import Fraction

import z3

from irparse import (CAgg, CBytes, CExpr, GRef, IRError, Reg, UNDEF, ZERO)
from sym import (FBits, Fork, PathEnd, Unsupported, bool_of_bv, bvv, gep_offset, is_sym, mask, sgn,
                 simp_bool)

M64 = (1 << 64) - 1


class Code:
    __slots__ = ("blocks", "entry", "nregs")


def compile_func(E, f):
    c = Code()
    c.entry = f.code
    c.nregs = len(f.nregs) + 1
    c.blocks = {}
    alias = f.blocks.get("__entryname__")
    names = [b for b in f.blocks if b not in ("__entryname__",) and not (
        b == alias and f.code == "__entry__")]
    # phi tables: target -> pred -> [(dst, getter)]
    phis = {}
    for b in names:
        tab = {}
        for ins in f.blocks[b]:
            if ins.op != "phi":
                break
            for v, lab in ins.x:
                tab.setdefault(lab, []).append((ins.dst, getter(E, ins.ty, v)))
        phis[b] = tab
    ctx = Ctx(E, f, c, phis)
    for b in names:
        code = []
        c.blocks[b] = code
        ctx.cur = alias if (b == "__entry__" and alias is not None) else b
        for ins in f.blocks[b]:
            if ins.op == "phi":
                continue
            code.append(ctx.comp(ins))
    return c


def getter(E, ty, v):
    if isinstance(v, Reg):
        i = v.i

        def g(fr):
            return fr.regs[i]
        return g
    c = E.const_val(ty, v)
    return lambda fr: c


def isconst(v):
    return not isinstance(v, Reg)


def asbool(v):
    """i1 value -> python int or BoolRef"""
    if isinstance(v, (int, z3.BoolRef)):
        return v
    return bool_of_bv(v)


def fold(e):
    """keep z3 terms shallow where cheap"""
    return e


def vecop(fn, n):
    def g(a, b):
        if a is UNDEF:
            a = [UNDEF] * n
        if b is UNDEF:
            b = [UNDEF] * n
        return [fn(x, y) for x, y in zip(a, b)]
    return g


def int_binop(E, op, w, flags=()):
    m = mask(w)
    if w == 1:
        def g(a, b):
            if isinstance(a, int) and isinstance(b, int):
                if op == "and" or op == "mul":
                    return a & b
                if op == "or":
                    return a | b
                return a ^ b
            if op in ("and", "mul"):
                if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
                    return 0
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                if isinstance(a, int):
                    return b
                if isinstance(b, int):
                    return a
                return z3.And(a, b)
            if op == "or":
                if (isinstance(a, int) and a == 1) or (isinstance(b, int) and b == 1):
                    return 1
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                if isinstance(a, int):
                    return b
                if isinstance(b, int):
                    return a
                return z3.Or(a, b)
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if op in ("xor", "add", "sub"):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return z3.Not(a) if b else a
                return z3.Xor(a, b)
            raise IRError("i1 " + op)
        return g

    if op == "add":
        def conc(a, b):
            return (a + b) & m

        def symf(a, b):
            return a + b
    elif op == "sub":
        def conc(a, b):
            return (a - b) & m

        def symf(a, b):
            return a - b
    elif op == "mul":
        def conc(a, b):
            return (a * b) & m

        def symf(a, b):
            return a * b
    elif op == "and":
        def conc(a, b):
            return a & b

        def symf(a, b):
            return a & b
    elif op == "or":
        def conc(a, b):
            return a | b

        def symf(a, b):
            return a | b
    elif op == "xor":
        def conc(a, b):
            return a ^ b

        def symf(a, b):
            return a ^ b
    elif op == "shl":
        def conc(a, b):
            return (a << b) & m if b < w else UNDEF

        def symf(a, b):
            return a << b
    elif op == "lshr":
        def conc(a, b):
            return a >> b if b < w else UNDEF

        def symf(a, b):
            return z3.LShR(a, b)
    elif op == "ashr":
        def conc(a, b):
            return (sgn(a, w) >> b) & m if b < w else UNDEF

        def symf(a, b):
            return a >> b
    elif op in ("udiv", "urem", "sdiv", "srem"):
        def conc(a, b):
            if b == 0:
                return E.undef_value("integer division by zero", w)
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == "sdiv" else x - q * y) & m

        def symf(a, b):
            if not z3.is_bv_value(b) and E.decide(b == 0):
                return E.undef_value("integer division by zero", w)
            if z3.is_bv_value(b) and b.as_long() == 0:
                return E.undef_value("integer division by zero", w)
            return {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y,
                    "srem": z3.SRem}[op](a, b)
    else:
        raise IRError(op)

    isshift = op in ("shl", "lshr", "ashr")

    def g(a, b):
        if type(a) is int and type(b) is int:
            return conc(a, b)
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 if type(a) is int else type(b) is int and b == 0):
                return 0
            if op == "mul" and (a == 0 if type(a) is int else type(b) is int and b == 0):
                return 0
            o = b if a is UNDEF else a
            if op in ("and", "or") and w >= 32 and type(o) is int and o not in (0, m):
                E.nundef += 1       # bits of a word that is only partly initialised
                return z3.simplify(symf(z3.BitVec("undef!%d" % E.nundef, w), z3.BitVecVal(o, w)))
            return UNDEF
        if type(a) is FBits or type(b) is FBits:
            return fbits_op(E, op, a, b, w)
        if type(b) is int:
            if b == 0:
                if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                    return a
                if op in ("and", "mul"):
                    return 0
            if op == "and" and b == m:
                return a
            if op == "mul" and b == 1:
                return a
            if op in ("udiv",) and b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                return z3.simplify(z3.LShR(a, z3.BitVecVal(k, w))) if k else a
            b = z3.BitVecVal(b, w)
            return z3.simplify(symf(a, b))
        if type(a) is int:
            if a == 0:
                if op in ("add", "or", "xor"):
                    return b
                if op in ("and", "mul", "shl", "lshr", "ashr"):
                    return 0
            a = z3.BitVecVal(a, w)
        r = symf(a, b)
        if type(r) is int:
            return r
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def g2(a, b):
        r = g(a, b)
        if is_sym(r) and z3.is_bv_value(r):
            return r.as_long()
        return r
    return g2


def fbits_op(E, op, a, b, w):
    """Bit tricks on the representation of a symbolic real: fabs / fneg."""
    if type(a) is FBits and type(b) is int:
        top = 1 << (w - 1)
        if op == "and" and b == top - 1:
            return FBits(E.dom.abs(a.v))
        if op == "xor" and b == top:
            return FBits(E.dom.neg(a.v))
    raise Unsupported("integer %s on the bits of a symbolic real" % op)


def icmp(E, pred, w, isptr):
    def g(a, b):
        if type(a) is int and type(b) is int:
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return int(a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt"
                       else a >= b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            a, b = asbool(a), asbool(b)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                r = a if b else z3.Not(a)
            else:
                r = a == b
            if pred == "eq":
                return r
            if pred == "ne":
                return z3.Not(r)
            raise IRError("i1 icmp " + pred)
        if type(a) is FBits or type(b) is FBits:
            if pred in ("slt", "sgt") and type(b) is int:
                if pred == "slt" and b == 0:
                    return E.dom.cmp("olt", a.v, Fraction(0))
                if pred == "sgt" and b == mask(w):
                    return E.dom.cmp("oge", a.v, Fraction(0))
            raise Unsupported("integer comparison of the bits of a symbolic real")
        a, b = bvv(a, w), bvv(b, w)
        if pred == "eq":
            r = a == b
        elif pred == "ne":
            r = a != b
        elif pred == "ult":
            r = z3.ULT(a, b)
        elif pred == "ule":
            r = z3.ULE(a, b)
        elif pred == "ugt":
            r = z3.UGT(a, b)
        elif pred == "uge":
            r = z3.UGE(a, b)
        elif pred == "slt":
            r = a < b
        elif pred == "sle":
            r = a <= b
        elif pred == "sgt":
            r = a > b
        else:
            r = a >= b
        r = simp_bool(r)
        return int(r) if isinstance(r, bool) else r
    return g


class Ctx:
    def __init__(self, E, f, code, phis):
        self.E, self.f, self.code, self.phis = E, f, code, phis
        self.cur = None

    def get(self, ty, v):
        return getter(self.E, ty, v)

    def jump(self, target):
        moves = self.phis[target].get(self.cur, [])
        blocks = self.code.blocks
        if not moves:
            def j(fr):
                fr.code = blocks[target]
                fr.pc = 0
                fr.blk = target
        elif len(moves) == 1:
            d, g = moves[0]

            def j(fr):
                fr.regs[d] = g(fr)
                fr.code = blocks[target]
                fr.pc = 0
                fr.blk = target
        else:
            def j(fr):
                vals = [g(fr) for (_, g) in moves]
                regs = fr.regs
                for (d, _), v in zip(moves, vals):
                    regs[d] = v
                fr.code = blocks[target]
                fr.pc = 0
                fr.blk = target
        return j

    def comp(self, ins):
        m = getattr(self, "c_" + ins.op, None)
        if m is None:
            if ins.op in BIN:
                return self.c_bin(ins)
            if ins.op in FBIN:
                return self.c_fbin(ins)
            op = ins.op

            def bad(st, fr):
                raise Unsupported("IR instruction " + op)
            return bad
        return m(ins)

    # ---- arithmetic
    def c_bin(self, ins):
        E = self.E
        d = ins.dst
        ty = ins.ty
        if ty.k == "vec":
            op = vecop(int_binop(E, ins.op, ty.el.w), ty.n)
        else:
            op = int_binop(E, ins.op, ty.w)
        ga, gb = self.get(ty, ins.a[0]), self.get(ty, ins.a[1])
        if ty.k != "vec" and isinstance(ins.a[0], Reg) and isinstance(ins.a[1], Reg):
            i, j = ins.a[0].i, ins.a[1].i

            def g(st, fr):
                r = fr.regs
                r[d] = op(r[i], r[j])
            return g
        if ty.k != "vec" and isinstance(ins.a[0], Reg):
            i = ins.a[0].i
            cv = gb(None)

            def g(st, fr):
                r = fr.regs
                r[d] = op(r[i], cv)
            return g

        def g(st, fr):
            fr.regs[d] = op(ga(fr), gb(fr))
        return g

    def c_fbin(self, ins):
        E = self.E
        d = ins.dst
        ty = ins.ty
        op = ins.op[1:]
        ga, gb = self.get(ty, ins.a[0]), self.get(ty, ins.a[1])
        dom = E.dom
        if op == "rem":
            def rem(a, b, w):
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                return E.fmod(a, b, w)
            fn = rem
            w = ty.w if ty.k == "float" else ty.el.w
        else:
            w = ty.w if ty.k == "float" else ty.el.w

            def fn(a, b, w):
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                return dom.bin(op, a, b, w)
        if ty.k == "vec":
            n = ty.n

            def g(st, fr):
                a, b = ga(fr), gb(fr)
                if a is UNDEF:
                    a = [UNDEF] * n
                if b is UNDEF:
                    b = [UNDEF] * n
                fr.regs[d] = [fn(x, y, w) for x, y in zip(a, b)]
            return g

        def g(st, fr):
            fr.regs[d] = fn(ga(fr), gb(fr), w)
        return g

    def c_fneg(self, ins):
        d = ins.dst
        ga = self.get(ins.ty, ins.a[0])
        dom = self.E.dom
        if ins.ty.k == "vec":
            def g(st, fr):
                fr.regs[d] = [UNDEF if x is UNDEF else dom.neg(x) for x in ga(fr)]
            return g

        def g(st, fr):
            a = ga(fr)
            fr.regs[d] = UNDEF if a is UNDEF else dom.neg(a)
        return g

    def c_icmp(self, ins):
        d = ins.dst
        ty = ins.ty
        ga, gb = self.get(ty, ins.a[0]), self.get(ty, ins.a[1])
        if ty.k == "vec":
            op = vecop(icmp(self.E, ins.x, ty.el.w if ty.el.k == "int" else 64, False), ty.n)
        else:
            op = icmp(self.E, ins.x, ty.w if ty.k == "int" else 64, ty.k == "ptr")

        def g(st, fr):
            fr.regs[d] = op(ga(fr), gb(fr))
        return g

    def c_fcmp(self, ins):
        d = ins.dst
        ty = ins.ty
        ga, gb = self.get(ty, ins.a[0]), self.get(ty, ins.a[1])
        dom = self.E.dom
        pred = ins.x

        def one(a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            r = dom.cmp(pred, a, b)
            if isinstance(r, bool):
                return int(r)
            return r
        if ty.k == "vec":
            op = vecop(one, ty.n)
        else:
            op = one

        def g(st, fr):
            fr.regs[d] = op(ga(fr), gb(fr))
        return g

    def c_select(self, ins):
        E = self.E
        d = ins.dst
        tc = ins.x
        gc = self.get(tc, ins.a[0])
        ga, gb = self.get(ins.ty, ins.a[1]), self.get(ins.ty, ins.a[2])
        ty = ins.ty
        if tc.k == "vec":
            el = ty.el

            def g(st, fr):
                c, a, b = gc(fr), ga(fr), gb(fr)
                n = ty.n
                if a is UNDEF:
                    a = [UNDEF] * n
                if b is UNDEF:
                    b = [UNDEF] * n
                fr.regs[d] = [UNDEF if q is UNDEF else E.select(asbool(q), x, y, el)
                              for q, x, y in zip(c, a, b)]
            return g
        isptr = ty.k == "ptr"

        def g(st, fr):
            c = gc(fr)
            if type(c) is int:
                fr.regs[d] = ga(fr) if c else gb(fr)
                return
            if c is UNDEF:
                a, b = ga(fr), gb(fr)
                fr.regs[d] = a if a is b or (type(a) is int and type(b) is int and a == b) \
                    else UNDEF
                return
            if isptr:
                a, b = ga(fr), gb(fr)
                if type(a) is int and type(b) is int and (a >> 32) != (b >> 32):
                    fr.regs[d] = a if E.decide(c) else b
                    return
            v = simp_bool(c)
            if isinstance(v, bool):
                fr.regs[d] = ga(fr) if v else gb(fr)
                return
            k = st.conc.get(v.get_id())
            if k is not None:
                fr.regs[d] = ga(fr) if k[1] else gb(fr)
                return
            fr.regs[d] = E.select(v, ga(fr), gb(fr), ty)
        return g

    # ---- memory
    def c_load(self, ins):
        E = self.E
        d = ins.dst
        ty = ins.ty
        gp = self.get(None, ins.a[0]) if isinstance(ins.a[0], Reg) else self.getp(ins.a[0])
        if ty.k in ("int", "float", "ptr"):
            size = ty.size()
            BO = 1 << 20
            MK = (1 << 32) - 1
            kind = "f" if ty.k == "float" else "i"
            full = ty.k != "int" or ty.w == size * 8

            def g(st, fr):
                a = gp(fr)
                if type(a) is int:
                    o = st.objs.get(a >> 32)
                    if o is not None and o != "freed":
                        c = o.cells.get((a & MK) - BO)
                        if c is not None and c[0] == size and c[1] == kind and full:
                            v = c[2]
                            if type(v) is not FBits or kind == "i":
                                fr.regs[d] = v
                                return
                fr.regs[d] = E.load(ty, a)
            return g

        def g(st, fr):
            fr.regs[d] = E.load(ty, gp(fr))
        return g

    def getp(self, v):
        from irparse import PTR
        return getter(self.E, PTR, v)

    def c_store(self, ins):
        E = self.E
        ty = ins.ty
        gv = self.get(ty, ins.a[0])
        gp = self.getp(ins.a[1])

        def g(st, fr):
            E.store(ty, gv(fr), gp(fr))
        return g

    def c_alloca(self, ins):
        E = self.E
        d = ins.dst
        sz = ins.ty.size()
        n = ins.a[0]
        gn = None
        if isinstance(n, Reg):
            gn = lambda fr: fr.regs[n.i]
        nm = self.f.name + ":stack"

        def g(st, fr):
            k = n if gn is None else E.concretize(gn(fr), "alloca size")
            p = E.new_obj(sz * k, nm, "stack")
            fr.allocas.append(p >> 32)
            fr.regs[d] = p
        return g

    def c_getelementptr(self, ins):
        E = self.E
        d = ins.dst
        gb = self.getp(ins.a[0])
        off, dyn = gep_offset(ins.ty, ins.x)
        if not dyn:
            def g(st, fr):
                b = gb(fr)
                if type(b) is int:
                    fr.regs[d] = (b + off) & M64
                elif b is UNDEF:
                    fr.regs[d] = UNDEF
                else:
                    fr.regs[d] = b + off if off else b
            return g
        gs = [(self.get(t, v), t.w, s) for (v, t, s) in dyn]

        def g(st, fr):
            b = gb(fr)
            o = off
            sym = None
            for (gv, w, s) in gs:
                v = gv(fr)
                if type(v) is int:
                    o += sgn(v, w) * s
                elif v is UNDEF:
                    fr.regs[d] = UNDEF
                    return
                else:
                    if isinstance(v, z3.BoolRef):
                        v = z3.If(v, z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64))
                        w = 64
                    if w < 64:
                        v = z3.SignExt(64 - w, v)
                    if s != 1:
                        v = v * s
                    sym = v if sym is None else sym + v
            if b is UNDEF:
                fr.regs[d] = UNDEF
                return
            if sym is None:
                fr.regs[d] = (b + o) & M64 if type(b) is int else b + o
                return
            r = z3.simplify(sym + bvv(b, 64) + o) if o else z3.simplify(sym + bvv(b, 64))
            fr.regs[d] = r.as_long() if z3.is_bv_value(r) else r
        return g

    # ---- casts
    def cast(self, ins, fn, n=None):
        d = ins.dst
        ga = self.get(ins.x, ins.a[0])
        if ins.ty.k == "vec":
            def g(st, fr):
                a = ga(fr)
                fr.regs[d] = UNDEF if a is UNDEF else [UNDEF if v is UNDEF else fn(v) for v in a]
            return g

        def g(st, fr):
            v = ga(fr)
            fr.regs[d] = UNDEF if v is UNDEF else fn(v)
        return g

    @staticmethod
    def ews(ins):
        s = ins.x.el if ins.x.k == "vec" else ins.x
        t = ins.ty.el if ins.ty.k == "vec" else ins.ty
        return (s.w if s.k != "ptr" else 64), (t.w if t.k != "ptr" else 64)

    def c_trunc(self, ins):
        E = self.E
        w0, w1 = self.ews(ins)
        m = mask(w1)

        def fn(v):
            if type(v) is int:
                return v & m
            if w1 == 1:
                r = bool_of_bv(v)
                return int(r) if isinstance(r, bool) else r
            r = E.trunc(v, w0, w1)
            return r.as_long() if is_sym(r) and z3.is_bv_value(r) else r
        return self.cast(ins, fn)

    def c_zext(self, ins):
        w0, w1 = self.ews(ins)

        def fn(v):
            if type(v) is int:
                return v
            if w0 == 1:
                v = asbool(v)
                if isinstance(v, int):
                    return v
                return z3.If(v, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
            if type(v) is FBits:
                raise Unsupported("zext of float bits")
            return z3.ZeroExt(w1 - w0, v)
        return self.cast(ins, fn)

    def c_sext(self, ins):
        w0, w1 = self.ews(ins)
        m1 = mask(w1)

        def fn(v):
            if type(v) is int:
                return sgn(v, w0) & m1
            if w0 == 1:
                v = asbool(v)
                if isinstance(v, int):
                    return m1 if v else 0
                return z3.If(v, z3.BitVecVal(m1, w1), z3.BitVecVal(0, w1))
            return z3.SignExt(w1 - w0, v)
        return self.cast(ins, fn)

    def c_ptrtoint(self, ins):
        E = self.E
        w0, w1 = self.ews(ins)
        return self.cast(ins, lambda v: E.trunc(v, 64, w1) if w1 < 64 else v)

    def c_inttoptr(self, ins):
        return self.cast(ins, lambda v: v)

    c_addrspacecast = c_inttoptr

    def c_fptrunc(self, ins):
        dom = self.E.dom
        w0, w1 = self.ews(ins)
        return self.cast(ins, lambda v: dom.conv(v, w0, w1))

    c_fpext = c_fptrunc

    def c_uitofp(self, ins):
        dom = self.E.dom
        w0, w1 = self.ews(ins)
        return self.cast(ins, lambda v: dom.from_int(self.unbool(v, w0), max(w0, 1), False, w1))

    @staticmethod
    def unbool(v, w):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v

    def c_sitofp(self, ins):
        dom = self.E.dom
        w0, w1 = self.ews(ins)
        return self.cast(ins, lambda v: dom.from_int(self.unbool(v, w0), w0, True, w1))

    def c_fptoui(self, ins):
        dom = self.E.dom
        w0, w1 = self.ews(ins)
        return self.cast(ins, lambda v: dom.to_int(v, w1, False))

    def c_fptosi(self, ins):
        dom = self.E.dom
        w0, w1 = self.ews(ins)
        return self.cast(ins, lambda v: dom.to_int(v, w1, True))

    def c_bitcast(self, ins):
        E = self.E
        s, t = ins.x, ins.ty
        d = ins.dst
        ga = self.get(s, ins.a[0])

        def g(st, fr):
            v = ga(fr)
            if v is UNDEF:
                fr.regs[d] = UNDEF
                return
            fr.regs[d] = bitcast(E, v, s, t)
        return g

    def c_freeze(self, ins):
        d = ins.dst
        ga = self.get(ins.ty, ins.a[0])

        def g(st, fr):
            fr.regs[d] = ga(fr)
        return g

    # ---- aggregates
    def c_extractvalue(self, ins):
        d = ins.dst
        ga = self.get(ins.ty, ins.a[0])
        idx = ins.x

        def g(st, fr):
            v = ga(fr)
            for i in idx:
                if v is UNDEF:
                    break
                v = v[i]
            fr.regs[d] = v
        return g

    def c_insertvalue(self, ins):
        d = ins.dst
        ty = ins.ty
        ga = self.get(ty, ins.a[0])
        ev = ins.a[1]
        # element type
        t = ty
        for i in ins.x:
            t = t.fields[i] if t.k == "struct" else t.el
        ge = self.get(t, ev)
        idx = ins.x

        def put(v, ty, idx, e):
            n = len(ty.fields) if ty.k == "struct" else ty.n
            v = [UNDEF] * n if v is UNDEF else list(v)
            if len(idx) == 1:
                v[idx[0]] = e
            else:
                sub = ty.fields[idx[0]] if ty.k == "struct" else ty.el
                v[idx[0]] = put(v[idx[0]], sub, idx[1:], e)
            return v

        def g(st, fr):
            fr.regs[d] = put(ga(fr), ty, idx, ge(fr))
        return g

    def c_extractelement(self, ins):
        E = self.E
        d = ins.dst
        ga = self.get(ins.ty, ins.a[0])
        it, iv = ins.a[1]
        gi = self.get(it, iv)

        def g(st, fr):
            v = ga(fr)
            i = E.concretize(gi(fr))
            fr.regs[d] = UNDEF if v is UNDEF else v[i]
        return g

    def c_insertelement(self, ins):
        E = self.E
        d = ins.dst
        ty = ins.ty
        ga = self.get(ty, ins.a[0])
        ge = self.get(ty.el, ins.a[1])
        it, iv = ins.a[2]
        gi = self.get(it, iv)

        def g(st, fr):
            v = ga(fr)
            v = [UNDEF] * ty.n if v is UNDEF else list(v)
            v[E.concretize(gi(fr))] = ge(fr)
            fr.regs[d] = v
        return g

    def c_shufflevector(self, ins):
        d = ins.dst
        ty = ins.ty
        ga, gb = self.get(ty, ins.a[0]), self.get(ty, ins.a[1])
        mt, mv = ins.x
        msk = self.get(mt, mv)(None)
        if msk is UNDEF:
            msk = [0] * mt.n

        def g(st, fr):
            a, b = ga(fr), gb(fr)
            n = ty.n
            a = [UNDEF] * n if a is UNDEF else a
            b = [UNDEF] * n if b is UNDEF else b
            ab = a + b
            fr.regs[d] = [UNDEF if q is UNDEF else ab[q] for q in msk]
        return g

    # ---- control
    def c_jmp(self, ins):
        j = self.jump(ins.x)

        def g(st, fr):
            j(fr)
        return g

    def c_br(self, ins):
        E = self.E
        from irparse import I1
        gc = self.get(I1, ins.a[0])
        ja, jb = self.jump(ins.x[0]), self.jump(ins.x[1])

        def g(st, fr):
            c = gc(fr)
            if type(c) is int:
                if c:
                    ja(fr)
                else:
                    jb(fr)
                return
            if c is UNDEF:
                E.report("ub", "branch on an uninitialised value")
                raise PathEnd("ub", "undef branch")
            if E.decide(asbool(c)):
                ja(fr)
            else:
                jb(fr)
        return g

    def c_switch(self, ins):
        E = self.E
        w = ins.ty.w
        gv = self.get(ins.ty, ins.a[0])
        cases, dflt = ins.x
        tab = {}
        jc = {}
        for v, lab in cases:
            v &= mask(w)
            if lab not in jc:
                jc[lab] = self.jump(lab)
            tab[v] = jc[lab]
        jd = self.jump(dflt)

        def g(st, fr):
            v = gv(fr)
            if v is UNDEF:
                E.report("ub", "switch on an uninitialised value")
                raise PathEnd("ub", "undef switch")
            if type(v) is int:
                tab.get(v, jd)(fr)
                return
            for k, j in tab.items():
                if E.decide(v == z3.BitVecVal(k, w)):
                    j(fr)
                    return
            jd(fr)
        return g

    def c_ret(self, ins):
        E = self.E
        gv = self.get(ins.ty, ins.a[0]) if ins.a else None

        def g(st, fr):
            v = gv(fr) if gv else None
            for oid in fr.allocas:
                st.objs[oid] = "freed"
            st.frames.pop()
            rk = fr.retkind
            if rk is not None:
                if rk == "stop":
                    return
                if rk == "end":
                    raise PathEnd("done")
                rk(E, st, v)
                return
            caller = st.frames[-1]
            if fr.dst is not None:
                caller.regs[fr.dst] = v
            if fr.cont is not None:
                fr.cont(caller)
        return g

    def c_unreachable(self, ins):
        E = self.E

        def g(st, fr):
            E.report("ub", "unreachable code reached in " + fr.fn.name)
            raise PathEnd("ub", "unreachable")
        return g

    def c_nop(self, ins):
        return lambda st, fr: None

    def c_asm(self, ins):
        d = ins.dst

        def g(st, fr):
            if d is not None:
                raise Unsupported("inline asm with a result")
        return g

    def c_landingpad(self, ins):
        def g(st, fr):
            raise Unsupported("landing pad")
        return g

    c_resume = c_landingpad

    def c_atomicrmw(self, ins):
        E = self.E
        d = ins.dst
        ty = ins.ty
        gp = self.getp(ins.a[0])
        gv = self.get(ty, ins.a[1])
        o = ins.x
        ops = {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}
        fn = int_binop(E, ops[o], ty.w) if o in ops else None

        def g(st, fr):
            p = gp(fr)
            old = E.load(ty, p)
            v = gv(fr)
            if o == "xchg":
                new = v
            elif fn is not None:
                new = fn(old, v)
            else:
                raise Unsupported("atomicrmw " + o)
            E.store(ty, new, p)
            fr.regs[d] = old
        return g

    def c_cmpxchg(self, ins):
        E = self.E
        d = ins.dst
        ty = ins.ty
        gp = self.getp(ins.a[0])
        gc, gn = self.get(ty, ins.a[1]), self.get(ty, ins.a[2])
        cmp = icmp(E, "eq", ty.w if ty.k == "int" else 64, False)

        def g(st, fr):
            p = gp(fr)
            old = E.load(ty, p)
            c = cmp(old, gc(fr))
            if is_sym(c):
                c = int(E.decide(c))
            if c:
                E.store(ty, gn(fr), p)
            fr.regs[d] = [old, c]
        return g

    # ---- calls
    def c_call(self, ins):
        E = self.E
        args, norm = ins.x
        gargs = []
        for (t, v, byval) in args:
            if t.k == "metadata":
                gargs.append(lambda fr: 0)
            else:
                gargs.append(self.get(t, v))
        d = ins.dst
        cont = self.jump(norm) if norm is not None else None
        callee = ins.a[0]
        rty = ins.ty
        if isinstance(callee, GRef):
            name = callee.name
            while name in E.m.aliases and isinstance(E.m.aliases[name], GRef):
                name = E.m.aliases[name].name
            return self.call_named(name, gargs, d, cont, rty)
        gp = self.getp(callee)
        cache = {}

        def g(st, fr):
            a = gp(fr)
            if a is UNDEF:
                E.report("mem", "call through an uninitialised pointer")
                raise PathEnd("mem")
            if type(a) is not int:
                a = E.concretize(a, "function pointer")
            nm = E.fname.get(a >> 32)
            if nm is None:
                E.report("mem", "call through an invalid pointer")
                raise PathEnd("mem")
            h = cache.get(nm)
            if h is None:
                while nm in E.m.aliases and isinstance(E.m.aliases[nm], GRef):
                    nm = E.m.aliases[nm].name
                h = cache[nm] = self.call_named(nm, gargs, d, cont, rty)
            h(st, fr)
        return g

    def call_named(self, name, gargs, d, cont, rty):
        E = self.E
        model = E.find_model(name)
        if model is not None:
            E.trusted_models.add(model.tag) if getattr(model, "tag", None) else None

            ismpi = name.startswith("MPI_")

            def g(st, fr):
                if ismpi:
                    saved = dict(st.extra)
                    try:
                        r = model(E, [x(fr) for x in gargs], rty)
                    except Fork:
                        st.extra = saved
                        raise
                else:
                    r = model(E, [x(fr) for x in gargs], rty)
                if d is not None:
                    fr.regs[d] = r
                if cont is not None:
                    cont(fr)
            return g
        f = E.m.func(name)
        if f is None:
            def bad(st, fr):
                raise Unsupported("external function " + name)
            return bad

        def g(st, fr):
            E.push_call(f, [x(fr) for x in gargs], d, cont)
        return g


def bitcast(E, v, s, t):
    if s.k == t.k and s.size() == t.size() and s.k != "vec":
        return v
    if s.k == "int" and t.k == "float":
        if type(v) is FBits:
            return v.v
        if isinstance(v, int) or E.mode == "ieee":
            return E.dom.from_bits(v, t.w)
        raise Unsupported("bitcast of symbolic integer to real")
    if s.k == "float" and t.k == "int":
        b = E.dom.bits(v, s.w)
        return FBits(v) if b is None else b
    if s.k == "vec" and t.k == "vec" and s.el.size() == t.el.size():
        return [UNDEF if x is UNDEF else bitcast(E, x, s.el, t.el) for x in v]
    # via memory
    p = E.new_obj(s.size(), "bitcast", "tmp")
    E.store(s, v, p)
    return E.load(t, p)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or",
       "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
