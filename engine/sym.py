"""Symbolic executor for LLVM IR (KLEE style: concrete objects, symbolic values,
path forking; z3 decides branches and assertions)."""
import os
import re
import struct
import sys
import time
from fractions import Fraction

import z3

from fpdom import IEEEDom, RealDom, special, tofloat
from irparse import (CAgg, CBytes, CExpr, F64, GRef, IRError, Module, Reg, UNDEF, ZERO)

sys.setrecursionlimit(20000)
z3.set_param("memory_max_size", 6000)

BASEOFF = 1 << 20
MASK32 = (1 << 32) - 1
M64 = (1 << 64) - 1


class FBits:
    """Bit pattern of a symbolic real stored in / moved through an integer."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Fork(Exception):
    def __init__(self, key, expr, alts):
        self.key, self.expr, self.alts = key, expr, alts   # alts: [(constraint, value)]


class PathEnd(Exception):
    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class RankBlock(Exception):
    """The current MPI rank cannot proceed; the call is retried later."""


class RankYield(Exception):
    """The other ranks run first; the call is retried later."""


class Obj:
    __slots__ = ("id", "size", "cells", "default", "const", "name", "owner", "kind")

    def __init__(self, oid, size, name, kind, default=None):
        self.id, self.size, self.name, self.kind = oid, size, name, kind
        self.cells = {}
        self.default = default
        self.const = False
        self.owner = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.name, self.kind, self.default)
        o.cells = dict(self.cells)
        o.const = self.const
        o.owner = owner
        return o


class Frame:
    __slots__ = ("fn", "code", "pc", "regs", "prev", "allocas", "dst", "cont", "blk", "retkind")

    def clone(self):
        f = Frame()
        f.fn, f.code, f.pc, f.regs, f.prev = self.fn, self.code, self.pc, list(self.regs), self.prev
        f.allocas, f.dst, f.cont, f.blk = list(self.allocas), self.dst, self.cont, self.blk
        f.retkind = self.retkind
        return f


class State:
    __slots__ = ("frames", "objs", "pc", "conc", "tok", "steps", "model", "defs", "inputs",
                 "ranks", "cur", "depth", "names", "possigns", "reached", "nviol", "extra")

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.conc = dict(self.conc)
        s.tok = object()
        self.tok = object()
        s.steps = self.steps
        s.model = self.model
        s.defs = dict(self.defs)
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.possigns = dict(self.possigns)
        s.reached = set(self.reached)
        s.nviol = self.nviol
        s.depth = self.depth + 1
        s.ranks = None
        if self.ranks is not None:
            s.ranks = [r.clone() for r in self.ranks]
            # current rank's frames are s.frames
            s.ranks[self.cur].frames = s.frames
        s.cur = self.cur
        s.extra = dict(self.extra)
        return s


class Rank:
    __slots__ = ("rid", "frames", "gobjs", "blocked", "done")

    def clone(self):
        r = Rank()
        r.rid = self.rid
        r.frames = [f.clone() for f in self.frames]
        r.gobjs = dict(self.gobjs)
        r.blocked = self.blocked
        r.done = self.done
        return r


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bvv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def to_bool(c):
    if isinstance(c, int):
        return bool(c & 1)
    if isinstance(c, z3.BoolRef):
        return c
    return bool_of_bv(c)


def bool_of_bv(v):
    # v is BV of any width: lowest bit
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            x, y = a.as_long() & 1, b.as_long() & 1
            if x == 1 and y == 0:
                return v.arg(0)
            if x == 0 and y == 1:
                return z3.Not(v.arg(0))
            return bool(x)
    r = z3.simplify(z3.Extract(0, 0, v) == 1)
    return r


SHAPE = {}


def simp_bool(c):
    """BoolRef -> python bool if constant"""
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return bool(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    a = c.arg(0) if z3.is_not(c) else c
    if a.num_args() == 2 and a.arg(0).sort().kind() == z3.Z3_REAL_SORT:
        SHAPE[s.get_id()] = (s, c)      # the shape of the terms is kept for abstraction
    return s


class SolverWrap:
    """Incremental solver whose assertion stack follows the DFS path condition."""

    def __init__(self, eng):
        self.E = eng
        self.s = z3.Solver()
        self.stack = []
        self.nq = 0
        self.t = 0.0
        self.unknowns = 0
        self.alt = {"nlsat": 0, "cvc5": 0}

    def sync(self, pc):
        st = self.stack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        if len(st) > k:
            self.s.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra, timeout_ms):
        """returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        for c in extra:
            self.s.add(c)
        self.s.set("timeout", timeout_ms)
        try:
            r = self.s.check()
            m = self.s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.s.pop()
        self.nq += 1
        self.t += time.time() - t0
        return str(r), m

    def check_fresh(self, pc, extra, timeout_ms, tactic=None):
        t0 = time.time()
        try:
            if tactic:
                s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
            else:
                s = z3.Solver()
            s.set("timeout", timeout_ms)
            for c in pc:
                s.add(c)
            for c in extra:
                s.add(c)
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.nq += 1
        self.t += time.time() - t0
        return str(r), m


class Engine:
    def __init__(self, path, mode="real", opts=None):
        self.m = path if isinstance(path, Module) else Module(path)
        self.opts = opts or {}
        self.mode = mode
        self.dom = RealDom(self) if mode == "real" else IEEEDom(self)
        self.solver = SolverWrap(self)
        self.gid = {}
        self.gname = {}
        self.faddr = {}
        self.fname = {}
        self.nextid = 1
        self.constobjs = {}
        for name in self.m.globals:
            self.gid[name] = self.nextid
            self.gname[self.nextid] = name
            self.nextid += 1
        for name in list(self.m.funcs) + list(self.m.decls) + list(self.m.aliases):
            if name in self.faddr or name in self.gid:
                continue
            self.faddr[name] = (self.nextid << 32) + BASEOFF
            self.fname[self.nextid] = name
            self.nextid += 1
        self.st = None
        self.work = []
        self.results = {}
        self.reached = {}
        self.stats = {"paths": 0, "ended": {}, "steps": 0, "forks": 0, "incomplete": []}
        self.violations = []
        self.sample_inputs = []
        self.funcs_run = {}
        self.feas_timeout = self.opts.get("feas_timeout", 1500)
        self.check_timeout = self.opts.get("check_timeout", 30000)
        self.max_steps = self.opts.get("max_steps", 3000000)
        self.deadline = time.time() + self.opts.get("budget", 300)
        self.max_viol = self.opts.get("max_viol", 3)
        self.check_fptoint = True
        self.cur_fp_w = 64
        self.defcache = {}
        self.hooks = {}
        self.trusted_models = set()
        self.nundef = 0
        self.max_conc = self.opts.get("max_conc", 300)
        import models
        self.models = models.table(self)

    # ------------------------------------------------------- solver helpers
    def add_pc(self, c, st=None):
        st = st or self.st
        st.pc.append(c)
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c, model_completion=True)):
                    st.model = None
            except z3.Z3Exception:
                st.model = None
        self.learn_sign(c, st)

    def learn_sign(self, c, st):
        # harvest x > 0, x >= 0, 0 < x, not(x <= 0) ...
        if z3.is_and(c):
            for k in range(c.num_args()):
                self.learn_sign(c.arg(k), st)
            return
        neg = False
        if z3.is_not(c):
            c = c.arg(0)
            neg = True
        if not (z3.is_app(c) and c.num_args() == 2):
            return
        k = c.decl().kind()
        if k not in (z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_LE):
            return
        a, b = c.arg(0), c.arg(1)
        if not z3.is_arith(a):
            return
        if neg:
            k = {z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE,
                 z3.Z3_OP_LE: z3.Z3_OP_GT}[k]
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            a, b = b, a
            k = z3.Z3_OP_GT if k == z3.Z3_OP_LT else z3.Z3_OP_GE
        # a > b or a >= b
        if z3.is_rational_value(b):
            v = b.as_fraction()
            if v > 0 or (v == 0 and k == z3.Z3_OP_GT):
                st.possigns[a.get_id()] = (2, a)
            elif v == 0:
                st.possigns.setdefault(a.get_id(), (1, a))
        elif z3.is_rational_value(a):
            v = a.as_fraction()
            if v < 0 or (v == 0 and k == z3.Z3_OP_GT):
                st.possigns[b.get_id()] = (-2, b)
            elif v == 0:
                st.possigns.setdefault(b.get_id(), (-1, b))

    def sign(self, e, d=0):
        """2: >0, 1: >=0, -2: <0, -1: <=0, 0: unknown, 3: ==0   (syntactic)"""
        if type(e) is Fraction:
            return 2 if e > 0 else -2 if e < 0 else 3
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return 2 if f > 0 else -2 if f < 0 else 3
        p = self.st.possigns.get(e.get_id())
        if p is not None and abs(p[0]) == 2:
            return p[0]
        r = self._sign(e, d)
        if p is not None and (r == 0):
            return p[0]
        return r

    def _sign(self, e, d):
        if d > 40 or not z3.is_app(e):
            return 0
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            n = e.num_args()
            args = [e.arg(i) for i in range(n)]
            # squares
            s = 2
            used = {}
            for a in args:
                used.setdefault(a.get_id(), []).append(a)
            for lst in used.values():
                c = len(lst)
                g = self.sign(lst[0], d + 1)
                if g == 3:
                    return 3
                if c % 2 == 0:
                    g = 2 if abs(g) == 2 else 1
                if g == 0:
                    return 0
                sg = (1 if s > 0 else -1) * (1 if g > 0 else -1)
                s = sg * min(abs(s), abs(g))
            return s
        if k == z3.Z3_OP_DIV:
            g1, g2 = self.sign(e.arg(0), d + 1), self.sign(e.arg(1), d + 1)
            if abs(g2) != 2 or g1 == 0:
                return 0
            if g1 == 3:
                return 3
            return g1 if g2 > 0 else -g1
        if k == z3.Z3_OP_ADD:
            gs = [self.sign(e.arg(i), d + 1) for i in range(e.num_args())]
            if all(g > 0 for g in gs):
                r = [g for g in gs if g != 3]
                if not r:
                    return 3
                return 2 if any(g == 2 for g in r) else 1
            if all(g < 0 or g == 3 for g in gs):
                return -2 if any(g == -2 for g in gs) else -1
            return 0
        if k == z3.Z3_OP_UMINUS:
            g = self.sign(e.arg(0), d + 1)
            return g if g in (0, 3) else -g
        if k == z3.Z3_OP_SUB and e.num_args() == 2:
            g1, g2 = self.sign(e.arg(0), d + 1), self.sign(e.arg(1), d + 1)
            if g2 == 3:
                return g1
            if g1 == 3:
                return -g2
            if g1 > 0 and g2 < 0:
                return 2 if 2 in (g1, -g2) else 1
            if g1 < 0 and g2 > 0:
                return -2 if -2 in (g1, -g2) else -1
            return 0
        if k == z3.Z3_OP_POWER:
            if z3.is_rational_value(e.arg(1)):
                f, g = e.arg(1).as_fraction(), self.sign(e.arg(0), d + 1)
                if f.denominator == 1 and f > 0:
                    if f % 2 == 0:
                        return 3 if g == 3 else 2 if abs(g) == 2 else 1
                    return g
            return 0
        if k == z3.Z3_OP_ITE:
            g1, g2 = self.sign(e.arg(1), d + 1), self.sign(e.arg(2), d + 1)
            if g1 == g2:
                return g1
            if g1 > 0 and g2 > 0:
                return 1
            if g1 in (-1, -2, 3) and g2 in (-1, -2, 3):
                return -1
            return 0
        return 0

    def known_sign(self, e):
        """1 if known > 0, -1 if known < 0 else 0"""
        g = self.sign(e)
        return 1 if g == 2 else -1 if g == -2 else 0

    def known_nonneg(self, e):
        return self.sign(e) in (1, 2, 3)

    def known_nonzero(self, e):
        return abs(self.sign(e)) == 2

    def mark_pos(self, t):
        self.st.possigns[t.get_id()] = (2, t)

    def feasible(self, c):
        """may pc /\\ c hold?  (unknown counts as yes)"""
        if time.time() > self.deadline:
            raise Budget()
        st = self.st
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        if self.opts.get("lazy"):       # nonlinear paths: only the abstraction prunes
            return not self.abstract_unsat(st.pc, c, 3)
        r, m = self.solver.check(st.pc, [c], self.feas_timeout)
        if r == "unknown":
            self.solver.unknowns += 1
            if self.mode == "real":
                if self.abstract_unsat(st.pc, c, 3):
                    return False
                r, m = self.solver.check_fresh(st.pc, [c], self.feas_timeout * 2)
        if r == "sat":
            if st.model is None:
                st.model = m
            return True
        return r != "unsat"

    def implied(self, c):
        c = simp_bool(c)
        if isinstance(c, bool):
            return c
        return not self.feasible(z3.Not(c))

    def decide(self, c):
        """Value of a boolean under the current path; forks when both hold."""
        c = simp_bool(c)
        if isinstance(c, bool):
            return c
        key = c.get_id()
        st = self.st
        if key in st.conc:
            return st.conc[key][1]
        nc = z3.Not(c)
        f1 = self.feasible(c)
        f0 = self.feasible(nc) if f1 else True
        if f1 and f0:
            raise Fork(key, c, [(c, True), (nc, False)])
        st.conc[key] = (c, f1)
        return f1

    def concretize(self, e, what="value", limit=None):
        """Concrete value of a bit-vector expression; forks over all feasible
        values (bounded by limit)."""
        if isinstance(e, int):
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        st = self.st
        key = e.get_id()
        if key in st.conc:
            return st.conc[key][1]
        limit = limit or self.max_conc
        vals = []
        extra = []
        while True:
            if time.time() > self.deadline:
                raise Budget()
            r, m = self.solver.check(st.pc, extra, self.feas_timeout * 4)
            if r == "unknown":
                r, m = self.solver.check_fresh(st.pc, extra, self.feas_timeout * 10)
            if r == "unsat":
                break
            if r == "unknown":
                raise Unsupported("cannot enumerate values of %s" % what)
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            extra.append(e != v)
            if len(vals) > limit:
                raise Unsupported("more than %d values for %s" % (limit, what))
        if not vals:
            raise PathEnd("infeasible")
        if len(vals) == 1:
            st.conc[key] = (e, vals[0])
            return vals[0]
        raise Fork(key, e, [(e == v, v) for v in vals])

    def concretize_floor(self, e, real_floor=False):
        """Integer part (trunc toward zero, or floor) of a real expression;
        forks over all feasible values."""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return f.numerator // f.denominator if real_floor else int(f)
        st = self.st
        key = ("fl", e.get_id(), real_floor)
        if key in st.conc:
            return st.conc[key][1]
        vals = []
        extra = []

        def rng(n):
            if real_floor or n > 0:
                return z3.And(e >= n, e < n + 1)
            if n < 0:
                return z3.And(e > n - 1, e <= n)
            return z3.And(e > -1, e < 1)
        while True:
            if time.time() > self.deadline:
                raise Budget()
            r, m = self.solver.check(st.pc, extra, self.feas_timeout * 4)
            if r == "unknown":
                r, m = self.solver.check_fresh(st.pc, extra, self.feas_timeout * 10)
            if r == "unsat":
                break
            if r == "unknown":
                raise Unsupported("cannot enumerate integer parts")
            f = model_frac(m, e)
            n = f.numerator // f.denominator if real_floor else int(f)
            vals.append(n)
            extra.append(z3.Not(rng(n)))
            if len(vals) > self.max_conc:
                raise Unsupported("more than %d integer parts" % self.max_conc)
        if not vals:
            raise PathEnd("infeasible")
        if len(vals) == 1:
            st.conc[key] = (e, vals[0])
            return vals[0]
        raise Fork(key, e, [(rng(n), n) for n in vals])

    def define(self, t, axioms):
        st = self.st
        if t.get_id() in st.defs:
            return
        st.defs[t.get_id()] = t
        for a in axioms:
            st.pc.append(a)
            self.learn_sign(a, st)
        if st.model is not None:
            try:
                if not all(z3.is_true(st.model.eval(a, model_completion=True)) for a in axioms):
                    st.model = None
            except z3.Z3Exception:
                st.model = None

    def defvar(self, name, arg, axioms, nonneg=False):
        key = (name, arg.get_id())
        ent = self.defcache.get(key)
        if ent is None:
            v = z3.Real("%s!%d" % (name, len(self.defcache)))
            ent = self.defcache[key] = (v, arg, axioms(v))
        v = ent[0]
        self.define(v, ent[2])
        if nonneg:
            g = self.sign(arg)
            self.st.possigns.setdefault(v.get_id(), (2 if abs(g) == 2 else 1, v))
        return v

    def undef_value(self, why, w):
        self.report("ub", "undefined behaviour: " + why)
        raise PathEnd("ub", why)

    # ----------------------------------------------------------- memory
    def new_obj(self, size, name, kind, default=None):
        oid = self.nextid
        self.nextid += 1
        o = Obj(oid, size, name, kind, default)
        o.owner = self.st.tok
        self.st.objs[oid] = o
        return (oid << 32) + BASEOFF

    def get_obj(self, oid, write=False):
        st = self.st
        o = st.objs.get(oid)
        if o is None:
            nm = self.gname.get(oid)
            if nm is None:
                return None
            g = self.m.globals[nm]
            o = self.constobjs.get(oid)
            if o is None:
                if g.external:
                    o = Obj(oid, 4096, nm, "global", 0)
                    m = re.fullmatch(r"_ZTI([a-z])", nm)
                    if m:  # std::type_info of a fundamental type: vtable, name
                        o.cells[8] = (8, "i", (oid << 32) + BASEOFF + 16)
                        o.cells[16] = (1, "i", ord(m.group(1)))
                else:
                    o = Obj(oid, g.ty.size(), nm, "global", None)
                    self.init_const(o, 0, g.ty, g.init)
                o.const = g.const
                self.constobjs[oid] = o
            st.objs[oid] = o
        if o == "freed":
            return o
        if write and o.owner is not st.tok:
            o = o.clone(st.tok)
            st.objs[oid] = o
        return o

    def init_const(self, o, off, ty, c):
        k = ty.k
        if c is ZERO:
            if off == 0 and ty.size() == o.size:
                o.default = 0
                return
            self.zero_fill(o, off, ty)
            return
        if c is UNDEF:
            return
        if isinstance(c, CBytes):
            for i, b in enumerate(c.b):
                o.cells[off + i] = (1, "i", b)
            return
        if isinstance(c, CAgg):
            if k == "array" or k == "vec":
                s = ty.el.size()
                for i, (t, v) in enumerate(c.vals):
                    self.init_const(o, off + i * s, t, v)
            else:
                offs = ty.offsets()
                for i, (t, v) in enumerate(c.vals):
                    self.init_const(o, off + offs[i], t, v)
            return
        v = self.const_val(ty, c)
        if k == "float":
            o.cells[off] = (ty.size(), "f", v)
        else:
            o.cells[off] = (ty.size(), "i", v)

    def zero_fill(self, o, off, ty):
        k = ty.k
        if k == "array" or k == "vec":
            s = ty.el.size()
            for i in range(ty.n):
                self.zero_fill(o, off + i * s, ty.el)
        elif k == "struct":
            for t, f in zip(ty.fields, ty.offsets()):
                self.zero_fill(o, off + f, t)
        elif k == "float":
            o.cells[off] = (ty.size(), "f", self.dom.const(0.0, ty.w))
        else:
            o.cells[off] = (ty.size(), "i", 0)

    def const_val(self, ty, c):
        """Evaluate an IR constant to an executor value."""
        if isinstance(c, GRef):
            return self.addr_of(c.name)
        if isinstance(c, CExpr):
            return self.eval_cexpr(c)
        if c is UNDEF:
            return UNDEF
        k = ty.k
        if k == "float":
            if c is ZERO:
                return self.dom.const(0.0, ty.w)
            return self.dom.const(c, ty.w)
        if k == "int" or k == "ptr":
            return 0 if c is ZERO else c
        if k in ("array", "vec"):
            if c is ZERO:
                return [self.const_val(ty.el, ZERO) for _ in range(ty.n)]
            if isinstance(c, CBytes):
                return list(c.b)
            return [self.const_val(t, v) for (t, v) in c.vals]
        if k == "struct":
            if c is ZERO:
                return [self.const_val(t, ZERO) for t in ty.fields]
            return [self.const_val(t, v) for (t, v) in c.vals]
        if k == "metadata":
            return 0
        raise IRError("const_val %r" % ty)

    def addr_of(self, name):
        a = self.faddr.get(name)
        if a is not None and name in self.m.aliases:
            tgt = self.m.aliases[name]
            if isinstance(tgt, GRef):
                return self.addr_of(tgt.name)
        if a is not None:
            return a
        g = self.gid.get(name)
        if g is None:
            raise IRError("unknown global " + name)
        return (g << 32) + BASEOFF

    def eval_cexpr(self, c):
        if c.op == "gep":
            base = self.const_val(c.args[0][0], c.args[0][1])
            off, dyn = gep_offset(c.extra, [(t, v) for (t, v) in c.args[1:]])
            assert not dyn
            return (base + off) & M64
        vals = [self.const_val(t, v) for (t, v) in c.args]
        if c.op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "zext"):
            return vals[0]
        w = c.ty.w if c.ty.k == "int" else 64
        if c.op == "trunc":
            return vals[0] & mask(w)
        if c.op == "sub":
            return (vals[0] - vals[1]) & mask(w)
        if c.op == "add":
            return (vals[0] + vals[1]) & mask(w)
        if c.op == "and":
            return vals[0] & vals[1]
        if c.op == "lshr":
            return vals[0] >> vals[1]
        if c.op == "ashr":
            return (sgn(vals[0], w) >> vals[1]) & mask(w)
        if c.op == "mul":
            return (vals[0] * vals[1]) & mask(w)
        if c.op == "select":
            return vals[1] if vals[0] else vals[2]
        if c.op == "icmp":
            return int({"eq": vals[0] == vals[1], "ne": vals[0] != vals[1]}[c.extra])
        raise IRError("cexpr " + c.op)

    def locate(self, addr, size, write):
        """-> (obj, off) with off int or symbolic BV64 (bounds already checked)"""
        if type(addr) is int:
            oid = addr >> 32
            off = (addr & MASK32) - BASEOFF
            o = self.get_obj(oid, write)
            if o is None or o == "freed":
                what = ("null pointer" if oid == 0 else
                        "freed/dead memory" if o == "freed" else "wild pointer")
                self.report("mem", "access through " + what)
                raise PathEnd("mem", what)
            if off < 0 or off + size > o.size:
                self.report("mem", "out-of-bounds %s of %d bytes at offset %d of %s (size %d)" % (
                    "write" if write else "read", size, off, o.name, o.size))
                raise PathEnd("mem", "oob")
            if write and o.const:
                self.report("mem", "write to constant " + o.name)
                raise PathEnd("mem", "const write")
            return o, off
        if addr is UNDEF:
            self.report("mem", "access through uninitialised pointer")
            raise PathEnd("mem", "undef ptr")
        if isinstance(addr, FBits):
            raise Unsupported("pointer from float bits")
        addr = z3.simplify(addr)
        if z3.is_bv_value(addr):
            return self.locate(addr.as_long(), size, write)
        oid = self.concretize(z3.Extract(63, 32, addr), "object of symbolic pointer")
        o = self.get_obj(oid, write)
        if o is None or o == "freed":
            self.report("mem", "access through invalid symbolic pointer")
            raise PathEnd("mem", "wild")
        off = z3.simplify(addr - ((oid << 32) + BASEOFF))
        if z3.is_bv_value(off):
            return self.locate(addr_const(oid, off.as_long()), size, write)
        if o.size < size:
            bad = z3.BoolVal(True)
        else:
            bad = z3.UGT(off, z3.BitVecVal(o.size - size, 64))
        if self.decide(bad):
            self.report("mem", "out-of-bounds %s of %d bytes in %s (size %d), symbolic offset" % (
                "write" if write else "read", size, o.name, o.size))
            raise PathEnd("mem", "oob")
        if write and o.const:
            self.report("mem", "write to constant " + o.name)
            raise PathEnd("mem", "const write")
        return o, off

    def load(self, ty, addr):
        k = ty.k
        if k == "vec":
            s = ty.el.size()
            return [self.load(ty.el, self.padd(addr, i * s)) for i in range(ty.n)]
        if k == "array":
            s = ty.el.size()
            return [self.load(ty.el, self.padd(addr, i * s)) for i in range(ty.n)]
        if k == "struct":
            return [self.load(t, self.padd(addr, o)) for t, o in zip(ty.fields, ty.offsets())]
        size = ty.size()
        o, off = self.locate(addr, size, False)
        if type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                return self.cell_to(ty, c)
            return self.load_slow(ty, o, off, size)
        # symbolic offset: ite chain over aligned candidate offsets
        keys = sorted(q for q, c in o.cells.items() if c[0] == size)
        full = set(keys)
        if o.default is not None or any(c[0] != size for c in o.cells.values()) or len(keys) > 600 \
                or not keys:
            return self.load(ty, addr_const(o.id, self.concretize(off, "offset in " + o.name)))
        covered = z3.Or([off == q for q in keys])
        if not self.implied(covered):
            return self.load(ty, addr_const(o.id, self.concretize(off, "offset in " + o.name)))
        vals = [(q, self.cell_to(ty, o.cells[q])) for q in keys]
        if any(v is UNDEF for _, v in vals):
            return self.load(ty, addr_const(o.id, self.concretize(off, "offset in " + o.name)))
        r = None
        for q, v in vals:
            if r is None:
                r = v
            else:
                r = self.select(off == q, v, r, ty)
        return r

    def cell_to(self, ty, c):
        size, kind, v = c
        if v is UNDEF:
            return UNDEF
        if ty.k == "float":
            if kind == "f":
                return v
            if isinstance(v, FBits):
                return v.v
            if isinstance(v, int) or self.mode == "ieee":
                return self.dom.from_bits(v, ty.w)
            raise Unsupported("integer bits read as real")
        w = ty.w if ty.k == "int" else 64
        if kind == "f":
            b = self.dom.bits(v, size * 8)
            return FBits(v) if b is None else b
        if w != size * 8:
            return self.trunc(v, size * 8, w)
        return v

    def trunc(self, v, w0, w):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return v & mask(w)
        if isinstance(v, FBits):
            raise Unsupported("trunc of float bits")
        if w == 1:
            return bool_of_bv(v)
        return z3.simplify(z3.Extract(w - 1, 0, v))

    def byte_at(self, o, off):
        """single byte value at off: int / BV8 / UNDEF"""
        for b in range(off, max(off - 16, -1), -1):
            c = o.cells.get(b)
            if c is not None:
                if b + c[0] > off:
                    v = c[2]
                    if v is UNDEF:
                        return UNDEF
                    if c[1] == "f":
                        v = self.dom.bits(v, c[0] * 8)
                        if v is None:
                            raise Unsupported("partial access to symbolic real")
                    if isinstance(v, FBits):
                        raise Unsupported("partial access to symbolic real")
                    sh = (off - b) * 8
                    if isinstance(v, int):
                        return (v >> sh) & 255
                    return z3.Extract(sh + 7, sh, v)
                break
        if o.default is None:
            return UNDEF
        return o.default

    def load_slow(self, ty, o, off, size):
        # nothing stored: default fill
        cells = o.cells
        any_overlap = False
        for b in range(off - 15, off + size):
            c = cells.get(b)
            if c is not None and b + c[0] > off:
                any_overlap = True
                break
        if not any_overlap:
            if o.default is None:
                return UNDEF
            v = 0
            for i in range(size):
                v |= o.default << (8 * i)
            if ty.k == "float":
                return self.dom.from_bits(v, ty.w)
            return v & mask(ty.w if ty.k == "int" else 64)
        bs = [self.byte_at(o, off + i) for i in range(size)]
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
        else:
            v = z3.simplify(z3.Concat(*[bvv(b, 8) for b in reversed(bs)]))
        if ty.k == "float":
            if isinstance(v, int) or self.mode == "ieee":
                return self.dom.from_bits(v, ty.w)
            raise Unsupported("integer bits read as real")
        w = ty.w if ty.k == "int" else 64
        return self.trunc(v, size * 8, w) if w != size * 8 else v

    def store(self, ty, v, addr):
        k = ty.k
        if k in ("vec", "array"):
            s = ty.el.size()
            if v is UNDEF:
                v = [UNDEF] * ty.n
            for i in range(ty.n):
                self.store(ty.el, v[i], self.padd(addr, i * s))
            return
        if k == "struct":
            if v is UNDEF:
                v = [UNDEF] * len(ty.fields)
            for t, o, x in zip(ty.fields, ty.offsets(), v):
                self.store(t, x, self.padd(addr, o))
            return
        size = ty.size()
        o, off = self.locate(addr, size, True)
        if k == "float":
            kind = "f"
        else:
            kind = "i"
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, size * 8), z3.BitVecVal(0, size * 8))
            elif k == "int" and ty.w != size * 8 and is_sym(v):
                v = z3.ZeroExt(size * 8 - ty.w, v)
        if type(off) is int:
            self.put(o, off, size, kind, v)
            return
        # symbolic offset
        keys = [q for q, c in o.cells.items() if c[0] == size]
        if o.default is not None or len(keys) != len(o.cells) or len(keys) > 64 or v is UNDEF or \
                not self.implied(z3.Or([off == q for q in keys] + [z3.BoolVal(False)])):
            n = self.concretize(off, "offset in " + o.name)
            self.put(o, n, size, kind, v)
            return
        for q in keys:
            old = self.cell_to(ty, o.cells[q])
            if old is UNDEF:
                n = self.concretize(off, "offset in " + o.name)
                self.put(o, n, size, kind, v)
                return
        for q in keys:
            old = self.cell_to(ty, o.cells[q])
            nv = self.select(off == q, v, old, ty)
            if isinstance(nv, z3.BoolRef):
                nv = z3.If(nv, z3.BitVecVal(1, size * 8), z3.BitVecVal(0, size * 8))
            o.cells[q] = (size, kind, nv)

    def put(self, o, off, size, kind, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, kind, v)
            return
        # remove overlaps
        if cells:
            for b in range(off - 15, off + size):
                c = cells.get(b)
                if c is None or b + c[0] <= off:
                    continue
                # split into bytes what remains
                end = b + c[0]
                rem = [q for q in range(b, end) if q < off or q >= off + size]
                if rem and c[2] is not UNDEF:
                    bs = [(q, self.byte_at(o, q)) for q in rem]
                else:
                    bs = [(q, UNDEF) for q in rem]
                del cells[b]
                for q, x in bs:
                    if x is not UNDEF or o.default is not None:
                        cells[q] = (1, "i", x)
        cells[off] = (size, kind, v)

    def padd(self, a, n):
        if n == 0:
            return a
        if type(a) is int:
            return (a + n) & M64
        if a is UNDEF:
            return a
        return a + n

    def memcpy(self, dst, src, n, move=False):
        n = self.concretize(n, "memcpy length")
        if n == 0:
            return
        so, soff = self.locate(src, n, False)
        if type(soff) is not int:
            soff = self.concretize(soff, "memcpy source")
        # make sure dst can be resolved before mutating
        do, doff = self.locate(dst, n, True)
        if type(doff) is not int:
            doff = self.concretize(doff, "memcpy destination")
        so = self.get_obj(so.id)
        items = []
        covered = 0
        if len(so.cells) < n * 2:
            rng = sorted(b for b in so.cells if b > soff - 16 and b < soff + n)
        else:
            rng = [b for b in range(soff - 15, soff + n) if b in so.cells]
        pos = soff
        holes = []
        for b in rng:
            c = so.cells[b]
            if b + c[0] <= soff:
                continue
            if b < soff or b + c[0] > soff + n:
                # partial
                for q in range(max(b, soff), min(b + c[0], soff + n)):
                    items.append((q - soff, (1, "i", self.byte_at(so, q))))
            else:
                items.append((b - soff, c))
            s0 = max(b, soff)
            if s0 > pos:
                holes.append((pos - soff, s0 - pos))
            pos = min(b + c[0], soff + n)
        if pos < soff + n:
            holes.append((pos - soff, soff + n - pos))
        # clear destination range
        whole = doff == 0 and n == do.size
        if whole:
            do.cells.clear()
            do.default = so.default
        else:
            self.clear_range(do, doff, n)
            if so.default != do.default:
                for (h, l) in holes:
                    if l > 1 << 16:
                        raise Unsupported("large hole copy")
                    q = 0
                    while q < l:
                        s = 8 if l - q >= 8 else 1
                        v = UNDEF if so.default is None else sum(so.default << (8 * i)
                                                                 for i in range(s))
                        do.cells[doff + h + q] = (s, "i", v)
                        q += s
        for q, c in items:
            do.cells[doff + q] = c

    def clear_range(self, o, off, n):
        cells = o.cells
        if len(cells) < n:
            ks = [b for b in cells if b > off - 16 and b < off + n]
        else:
            ks = [b for b in range(off - 15, off + n) if b in cells]
        for b in ks:
            c = cells.get(b)
            if c is None or b + c[0] <= off:
                continue
            end = b + c[0]
            rem = [q for q in range(b, end) if q < off or q >= off + n]
            bs = [(q, self.byte_at(o, q)) for q in rem] if rem else []
            del cells[b]
            for q, x in bs:
                cells[q] = (1, "i", x)

    def memset(self, dst, byte, n):
        n = self.concretize(n, "memset length")
        if n == 0:
            return
        o, off = self.locate(dst, n, True)
        if type(off) is not int:
            off = self.concretize(off, "memset destination")
        byte = self.concretize(byte, "memset value") if byte is not UNDEF else UNDEF
        if off == 0 and n == o.size:
            o.cells.clear()
            o.default = None if byte is UNDEF else byte
            return
        self.clear_range(o, off, n)
        if byte is not UNDEF and o.default == byte:
            return
        if n > 1 << 18:
            raise Unsupported("large partial memset")
        q = 0
        while q < n:
            s = 8 if (n - q >= 8 and (off + q) % 8 == 0) else 4 if (n - q >= 4 and (off + q) % 4 == 0) else 1
            v = UNDEF if byte is UNDEF else sum(byte << (8 * i) for i in range(s))
            o.cells[off + q] = (s, "i", v)
            q += s

    # ------------------------------------------------------------ values
    def select(self, c, a, b, ty):
        if isinstance(c, (bool, int)):
            return a if c else b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        k = ty.k
        if k == "float":
            self.cur_fp_w = ty.w
            return self.dom.ite(c, a, b)
        if k in ("struct", "array", "vec"):
            ts = ty.fields if k == "struct" else [ty.el] * ty.n
            return [self.select(c, x, y, t) for x, y, t in zip(a, b, ts)]
        if isinstance(a, FBits) or isinstance(b, FBits):
            fa = a.v if isinstance(a, FBits) else self.dom.from_bits(a, ty.w)
            fb = b.v if isinstance(b, FBits) else self.dom.from_bits(b, ty.w)
            return FBits(self.dom.ite(c, fa, fb))
        if k == "int" and ty.w == 1:
            if isinstance(a, int) and isinstance(b, int):
                if a == b:
                    return a
                return c if a else z3.Not(c)
            return z3.If(c, z3.BoolVal(bool(a)) if isinstance(a, int) else a,
                         z3.BoolVal(bool(b)) if isinstance(b, int) else b)
        w = ty.w if k == "int" else 64
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        a, b = bvv(a, w), bvv(b, w)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    # --------------------------------------------------------- reporting
    def violation_name(self, kind, msg):
        return msg

    def cur_loc(self):
        names = []
        for f in reversed(self.st.frames):
            names.append(f.fn.name)
            if len(names) > 3:
                break
        return names

    def report(self, kind, msg, model=None, alt=None):
        """Record a violation candidate with concrete inputs."""
        st = self.st
        label = msg if kind == "check" else kind + ": " + msg
        r = self.results.setdefault(label, new_result())
        nv = len(r["violations"])
        if nv >= self.max_viol:
            r["more"] = r.get("more", 0) + 1
            return
        if model is None:
            rr, model = self.solver.check(st.pc, [], self.check_timeout)
            if rr == "unknown":
                rr, model = self.solver.check_fresh(st.pc, [], self.check_timeout)
            if rr == "unsat":
                raise PathEnd("infeasible")
            if rr == "unknown":
                r["unknown"] += 1
                return
        inputs = [self.eval_inputs(model)]
        for m in (alt or []):
            inputs.append(self.eval_inputs(m))
        v = {"label": label, "inputs": inputs, "where": self.cur_loc()}
        # diversify: try for models with moderate numbers
        r["violations"].append(v)

    def eval_inputs(self, model):
        out = []
        for (name, kind, e) in self.st.inputs:
            if kind in ("real", "float"):
                if isinstance(e, z3.FPRef):
                    b = model.eval(z3.fpToIEEEBV(e), model_completion=True)
                    fv = model.eval(e, model_completion=True)
                    if z3.is_bv_value(b):
                        w = b.size()
                        fmt = {64: ("<Q", "<d"), 32: ("<I", "<f"), 16: ("<H", "<e")}[w]
                        f = struct.unpack(fmt[1], struct.pack(fmt[0], b.as_long()))[0]
                    else:
                        f = float("nan")
                    out.append((name, "d", f.hex() if f == f else "nan"))
                else:
                    f = tofloat(model_frac(model, e))
                    out.append((name, "d", f.hex()))
            elif kind == "intreal":
                v = model.eval(e.bv, model_completion=True).as_long()
                off = e.off if type(e.off) is Fraction else model_frac(model, e.off)
                out.append((name, "d", tofloat(e.scale * v + off).hex()))
            else:
                v = model.eval(e, model_completion=True)
                if z3.is_bool(v):
                    n = 1 if z3.is_true(v) else 0
                else:
                    n = v.as_long()
                out.append((name, "u", str(n)))
        return out

    # ------------------------------------------------------------- checks
    def check_assert(self, cond, label, strong=None, simplified=None, relaxed=None):
        """cond: python bool/int or BoolRef; property must hold on this path."""
        r = self.results.setdefault(label, new_result())
        r["hit"] += 1
        if cond is UNDEF:
            self.report("check", label)
            return
        cond = simp_bool(to_bool(cond) if not isinstance(cond, bool) else cond)
        if cond is True:
            r["trivial"] += 1
            return
        if cond is False:
            self.report("check", label)
            raise PathEnd("violated", label)
        st = self.st
        neg = z3.Not(cond)
        if simplified is not None:
            neg = simplified
            if z3.is_false(neg):
                neg = z3.BoolVal(False)
        if len(r["violations"]) >= self.max_viol:
            # this label already failed often enough; assume and go on
            if self.feasible(cond):
                self.add_pc(cond)
                return
            raise PathEnd("violated", label)
        t0 = time.time()
        if relaxed is not None:     # implied by the negation: refuting it is a proof
            res, m = self.solver.check_fresh([], relaxed, 8000)
            if res == "unsat":
                r["proved"] += 1
                r["time"] += time.time() - t0
                return
        res, m = self.prove(st.pc, neg, self.check_timeout)
        r["time"] += time.time() - t0
        if res == "unsat":
            r["proved"] += 1
            return
        if res == "unknown":
            r["unknown"] += 1
            return
        ms = []
        if strong is not None:
            for c in strong:
                rr, mm = self.solver.check_fresh(st.pc, [c], 8000)
                if rr == "sat":
                    ms.append(mm)
        ms += self.more_models(st.pc + [neg], 3)
        self.report("check", label, m, ms)
        # continue under the assumption, if possible
        if self.feasible(cond):
            self.add_pc(cond)
        else:
            raise PathEnd("violated", label)

    def more_models(self, cs, n):
        """A few extra models with small dyadic inputs (better replay)."""
        out = []
        reals = [e for (_, k, e) in self.st.inputs if k in ("real", "float") and
                 isinstance(e, z3.ArithRef)]
        if not reals:
            return out
        import random
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) + len(cs))
        for i in range(n):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*cs)
            ok = False
            # fix as many inputs as possible to small dyadic numbers
            for e in reals:
                s.push()
                s.add(e == z3.RealVal(Fraction(rnd.randint(-64, 64), 16)) if rnd.random() < .5
                      else e == z3.RealVal(Fraction(rnd.randint(1, 64), 32)))
                s.set("timeout", 400)
                if s.check() != z3.sat:
                    s.pop()
                else:
                    ok = True
                if time.time() > self.deadline:
                    break
            s.set("timeout", 3000)
            if ok and s.check() == z3.sat:
                out.append(s.model())
        return out

    def prove(self, pc, neg, timeout):
        if time.time() > self.deadline + 30:
            return "unknown", None
        res, m = self.solver.check(pc, [neg], min(timeout, 1200 if self.mode == "real" else 4000))
        if res != "unknown":
            return res, m
        if self.mode == "real":
            for depth in (2, 3, 5):
                if self.abstract_unsat(pc, neg, depth):
                    self.solver.alt["abstraction"] = self.solver.alt.get("abstraction", 0) + 1
                    return "unsat", None
            res, m = self.solver.check(pc, [neg], min(timeout, 4000))
            if res != "unknown":
                return res, m
            uf = self.has_uf(pc + [neg])
            if not uf:
                res, m = self.solver.check_fresh(pc, [neg], timeout, "qfnra-nlsat")
                if res != "unknown":
                    self.solver.alt["nlsat"] += 1
                    return res, m
            res, m = self.solver.check_fresh(pc, [neg], timeout)
            if res != "unknown":
                return res, m
            res = self.cvc5_check(pc + [neg], timeout)
            if res == "unsat":
                self.solver.alt["cvc5"] += 1
                return "unsat", None
            return "unknown", None
        else:
            t = z3.Then("simplify", "propagate-values", "fpa2bv", "propagate-values", "simplify", "bit-blast", "sat")
            res, m = self.solver.check_fresh(pc, [neg], timeout, t)
            if res == "unsat":
                return res, m
            res, m = self.solver.check_fresh(pc, [neg], timeout)
            return res, m

    def abstract_unsat(self, pc, neg, depth):
        """Refute with every arithmetic subterm below `depth` replaced by a variable
        of which only the sign is known: a proof if it succeeds."""
        def shape(c):
            if z3.is_not(c):
                a = shape(c.arg(0))
                return c if a is c.arg(0) else z3.Not(a)
            r = SHAPE.get(c.get_id())
            return r[1] if r else c
        pc, neg = [shape(c) for c in pc], shape(neg)
        atoms, seen = [], set()
        stack = list(pc) + [neg]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_bool(e) and all(z3.is_bool(c) for c in e.children()):
                stack.extend(e.children())
            elif z3.is_bool(e):
                atoms.append(e)
        cut, best = {}, {}
        todo = [(c, 1) for a in atoms for c in a.children()]
        leaf = lambda e: e.num_args() == 0 or z3.is_rational_value(e)
        while todo:
            e, d = todo.pop()
            if not z3.is_app(e):
                return False
            if leaf(e) or e.sort().kind() != z3.Z3_REAL_SORT or best.get(e.get_id(), 99) <= d:
                continue
            best[e.get_id()] = d
            if d >= depth:
                cut[e.get_id()] = e
            else:
                todo.extend((c, d + 1) for c in e.children())
        if not cut:
            return False
        var = [(e, z3.Real("abs!%d" % i)) for i, e in cut.items()]
        memo, facts = {i: v for (i, _), (_, v) in zip(cut.items(), var)}, []

        def conv(e):
            i = e.get_id()
            if i in memo:
                return memo[i]
            if e.num_args() == 0:
                r = e
            else:
                r = e.decl()(*[conv(c) for c in e.children()]) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                    {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[e.decl().kind()](
                        *[conv(c) for c in e.children()])
                if e.sort().kind() == z3.Z3_REAL_SORT:
                    sg(e, r)
            memo[i] = r
            return r

        def sg(e, r):
            g = self.sign(e)
            if g:
                facts.append(r > 0 if g == 2 else r < 0 if g == -2 else r >= 0 if g == 1 else
                             r <= 0 if g == -1 else r == 0)
        for e, v in var:
            sg(e, v)
        try:
            cs = [conv(c) for c in pc] + [conv(neg)]
        except (z3.Z3Exception, RecursionError):
            return False
        r, _ = self.solver.check_fresh(cs + facts, [], 1500)
        return r == "unsat"

    def has_uf(self, cs):
        return bool(getattr(self.dom, "ufs", None)) or any("pow_" in c.sexpr()[:200000]
                                                           for c in cs[-3:])

    def cvc5_check(self, cs, timeout):
        try:
            import cvc5
        except ImportError:
            return "unknown"
        t0 = time.time()
        s = z3.Solver()
        s.add(*cs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        import subprocess
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "--nl-cov", "-"],
                               input=txt, capture_output=True, text=True,
                               timeout=timeout / 1000 + 10)
            out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        except Exception:
            out = "unknown"
        self.solver.nq += 1
        self.solver.t += time.time() - t0
        return out if out in ("sat", "unsat") else "unknown"

    # --------------------------------------------------------- execution
    def initial_state(self):
        st = State()
        st.frames = []
        st.objs = {}
        st.pc = []
        st.conc = {}
        st.tok = object()
        st.steps = 0
        st.model = None
        st.defs = {}
        st.inputs = []
        st.ranks = None
        st.cur = 0
        st.depth = 0
        st.names = {}
        st.possigns = {}
        st.reached = set()
        st.nviol = 0
        st.extra = {}
        return st

    def compiled(self, f):
        if f.compiled is None:
            from compile import compile_func
            f.compiled = compile_func(self, f)
        return f.compiled

    def find_model(self, name):
        import models
        return models.find(self, name)

    # ------------------------------------------------------- virtual ranks
    def mutable_gids(self):
        if getattr(self, "_mg", None) is None:
            self._mg = [i for i, n in self.gname.items() if not self.m.globals[n].const]
        return self._mg

    def spawn_ranks(self, n, fn, arg):
        st = self.st
        n = self.concretize(n, "rank count")
        f = self.m.func(self.fname[fn >> 32])
        st.tok = object()
        gl = {i: st.objs[i] for i in self.mutable_gids() if i in st.objs}
        main = st.frames
        st.extra["main globals"] = gl
        for k in [k for k in st.extra if k == "seq" or isinstance(k, tuple)]:
            del st.extra[k]
        st.ranks = []
        for r in range(n):
            k = Rank()
            k.rid = r
            k.done = k.blocked = False
            k.gobjs = dict(gl)
            st.frames = main if r == 0 else []
            self.push_call(f, [r, arg], None)
            st.frames[-1].retkind = rank_end
            k.frames = st.frames
            st.ranks.append(k)
        st.cur = 0
        st.frames = st.ranks[0].frames

    def switch_rank(self, to):
        st = self.st
        if to == st.cur:
            return
        r = st.ranks[st.cur]
        r.frames = st.frames
        r.gobjs = {}
        for i in self.mutable_gids():
            o = st.objs.pop(i, None)
            if o is not None:
                r.gobjs[i] = o
        st.cur = to
        r = st.ranks[to]
        st.frames = r.frames
        st.objs.update(r.gobjs)

    def rank_progress(self):
        if self.st.ranks is not None:
            self.st.extra["idle"] = 0
            for r in self.st.ranks:
                r.blocked = False

    def rank_yield(self):
        st = self.st
        n = len(st.ranks)
        for k in range(1, n):
            q = (st.cur + k) % n
            if not st.ranks[q].done and not st.ranks[q].blocked:
                self.switch_rank(q)
                return True
        return False

    def rank_block(self):
        st = self.st
        if st.ranks is None:
            self.report("mpi", "deadlock: blocking call never completes")
            raise PathEnd("mpi", "deadlock")
        st.ranks[st.cur].blocked = True
        n = len(st.ranks)
        for k in range(1, n + 1):
            q = (st.cur + k) % n
            if not st.ranks[q].done and not st.ranks[q].blocked:
                self.switch_rank(q)
                return
        self.report("mpi", "deadlock: every rank is blocked")
        raise PathEnd("mpi", "deadlock")

    def fmod(self, a, b, w):
        if self.mode != "real":
            if type(a) is float and type(b) is float:
                import math
                return math.fmod(a, b) if b else float("nan")
            raise Unsupported("symbolic fmod in ieee mode")
        q = self.dom.bin("div", a, b)
        if special(q):
            return float("nan")
        if type(q) is Fraction:
            t = Fraction(int(q))
        else:
            t = Fraction(self.concretize_floor(self.dom.lift(q)))
        return self.dom.bin("sub", a, self.dom.bin("mul", t, b))

    def byte_defined(self, o, off):
        for b in range(off, max(off - 16, -1), -1):
            c = o.cells.get(b)
            if c is not None:
                if b + c[0] > off:
                    return c[2] is not UNDEF
                break
        return o.default is not None

    def push_call(self, f, args, dst, cont=None):
        cf = self.compiled(f)
        fr = Frame()
        fr.fn = f
        fr.regs = [None] * cf.nregs
        for (ty, r, byval), a in zip(f.params, args):
            if byval is not None:
                sz = byval.size()
                p = self.new_obj(sz, f.name + ":byval", "stack")
                self.memcpy(p, a, sz)
                a = p
                fr.allocas = getattr(fr, "allocas", None) or []
            fr.regs[r] = a
        fr.allocas = []
        fr.code = cf.blocks[cf.entry]
        fr.blk = cf.entry
        fr.pc = 0
        fr.prev = None
        fr.dst = dst
        fr.cont = cont
        fr.retkind = None
        self.st.frames.append(fr)
        if f.name not in self.funcs_run:
            self.funcs_run[f.name] = 1
        if len(self.st.frames) > 400:
            raise Unsupported("recursion deeper than 400")

    def run_entry(self, entry, run_ctors=True):
        st = self.initial_state()
        self.st = st
        if run_ctors:
            # concrete static initialisation (must not fork)
            for (_, fn) in sorted(self.m.ctors, key=lambda x: x[0]):
                f = self.m.func(fn.name)
                self.push_call(f, [], None)
                st.frames[-1].retkind = "stop"
                self.run_ctor(st)
            self.funcs_run = {}
        f = self.m.func(entry)
        if f is None:
            raise Unsupported("no entry " + entry)
        self.push_call(f, [], None)
        st.frames[-1].retkind = "end"
        self.work = [st]
        try:
            while self.work:
                if time.time() > self.deadline:
                    raise Budget()
                s = self.work.pop()
                self.run_state(s)
        except Budget:
            self.stats["incomplete"].append("time budget exhausted, %d paths pending" %
                                            (len(self.work) + 1))
        return self.summary()

    def run_ctor(self, st):
        depth = len(st.frames)
        while len(st.frames) >= depth:
            fr = st.frames[-1]
            ins = fr.code[fr.pc]
            fr.pc += 1
            ins(st, fr)

    def run_state(self, st):
        self.st = st
        frames = st.frames
        try:
            while True:
                fr = st.frames[-1]
                st.steps += 1
                ins = fr.code[fr.pc]
                fr.pc += 1
                try:
                    ins(st, fr)
                except Fork as fk:
                    fr.pc -= 1
                    self.do_fork(st, fk)
                    return
                except RankBlock:
                    fr.pc -= 1
                    self.rank_block()
                except RankYield:
                    fr.pc -= 1
                if st.steps > self.max_steps:
                    self.stats["incomplete"].append("step limit on a path")
                    self.report("hang", "no end within %d steps" % self.max_steps)  # a violation if the replay hangs as well
                    raise PathEnd("steps")
                if not (st.steps & 4095) and time.time() > self.deadline:
                    raise Budget()
        except PathEnd as pe:
            self.end_path(st, pe)
        except (Unsupported, IRError, NotImplementedError) as e:
            w = " < ".join(self.cur_loc())
            self.stats["incomplete"].append("unsupported: %s in %s" % (e, w))
            self.end_path(st, PathEnd("unsupported", str(e)))

    def do_fork(self, st, fk):
        self.stats["forks"] += 1
        n = len(fk.alts)
        children = []
        for i, (c, v) in enumerate(fk.alts):
            s = st if i == n - 1 else st.clone()
            children.append((s, c, v))
        for s, c, v in children:
            s.conc[fk.key] = (fk.expr, v)
            self.st = s
            self.add_pc(c, s)
            self.work.append(s)

    def end_path(self, st, pe):
        self.stats["paths"] += 1
        k = pe.kind
        self.stats["ended"][k] = self.stats["ended"].get(k, 0) + 1
        self.stats["steps"] += st.steps
        if k == "done" and len(self.sample_inputs) < 3:
            try:
                r, m = self.solver.check(st.pc, [], 2000)
                if r == "sat":
                    self.sample_inputs.append(self.eval_inputs(m))
            except (z3.Z3Exception, Budget):
                pass

    def summary(self):
        return {
            "checks": self.results, "reached": sorted(self.reached), "stats": self.stats,
            "reach_sat": dict(self.reached),
            "queries": self.solver.nq, "solver_time": self.solver.t,
            "feas_unknown": self.solver.unknowns, "alt": self.solver.alt,
            "functions": sorted(self.funcs_run), "models": sorted(self.trusted_models),
        }


def rank_end(E, st, v):
    r = st.ranks[st.cur]
    r.done = True
    E.rank_progress()
    n = len(st.ranks)
    for k in range(1, n):
        q = (st.cur + k) % n
        if not st.ranks[q].done:
            E.switch_rank(q)
            return
    E.switch_rank(0)
    st.ranks = None
    st.cur = 0
    # the ranks are processes of their own: the globals are as before
    for i in E.mutable_gids():
        st.objs.pop(i, None)
    st.objs.update(st.extra["main globals"])


def new_result():
    return {"hit": 0, "trivial": 0, "proved": 0, "unknown": 0, "violations": [], "time": 0.0}


def addr_const(oid, off):
    return (oid << 32) + BASEOFF + sgn64(off)


def sgn64(off):
    off &= M64
    return off - (1 << 64) if off >> 63 else off


def model_frac(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(40).as_fraction()
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(40).as_fraction()
    return Fraction(0)


def gep_offset(ty, idx):
    """-> (constant offset, [(index value, its type, stride)])"""
    off = 0
    dyn = []
    cur = ty
    first = True
    for (t, v) in idx:
        if first:
            s = cur.size()
            first = False
        elif cur.k == "struct":
            off += cur.offsets()[v]
            cur = cur.fields[v]
            continue
        elif cur.k in ("array", "vec"):
            cur = cur.el
            s = cur.size()
        else:
            raise IRError("gep into %r" % cur)
        if isinstance(v, int):
            off += sgn(v, t.w) * s
        else:
            dyn.append((v, t, s))
    return off, dyn
