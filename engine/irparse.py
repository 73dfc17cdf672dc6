"""Parser for textual LLVM IR (LLVM 18, opaque pointers).

Only the subset clang emits for the checks' translation units is supported; an
unknown construct raises IRError when the function that contains it is first
executed (parsing of function bodies is lazy).
"""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


# ----------------------------------------------------------------- types ----
class Ty:
    __slots__ = ("k", "w", "el", "n", "fields", "packed", "_size", "_align", "_offs", "name")

    def __init__(self, k, w=0, el=None, n=0, fields=None, packed=False, name=None):
        self.k = k          # int float ptr array struct vec void label token metadata func
        self.w = w
        self.el = el
        self.n = n
        self.fields = fields
        self.packed = packed
        self._size = None
        self._align = None
        self._offs = None
        self.name = name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "float":
            return "f%d" % self.w
        if self.k in ("array", "vec"):
            return "%s[%d x %r]" % (self.k, self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.fields or []))
        return self.k

    def size(self):
        if self._size is None:
            self._layout()
        return self._size

    def align(self):
        if self._align is None:
            self._layout()
        return self._align

    def offsets(self):
        if self._offs is None:
            self._layout()
        return self._offs

    def _layout(self):
        k = self.k
        if k == "int":
            b = (self.w + 7) // 8
            s = 1
            while s < b:
                s *= 2
            self._size = s
            self._align = min(s, 16)
        elif k == "float":
            s = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[self.w]
            self._size = s
            self._align = s
        elif k == "ptr":
            self._size = self._align = 8
        elif k == "array":
            self._size = self.el.size() * self.n
            self._align = self.el.align()
        elif k == "vec":
            s = self.el.size() * self.n
            self._size = s
            self._align = s
        elif k == "struct":
            if self.fields is None:
                raise IRError("opaque struct %s" % self.name)
            off = 0
            al = 1
            offs = []
            for f in self.fields:
                a = 1 if self.packed else f.align()
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
                al = max(al, a)
            off = (off + al - 1) // al * al
            self._offs = offs
            self._size = off
            self._align = al
        elif k in ("void", "label", "metadata", "token", "func"):
            self._size = 0
            self._align = 1
        else:
            raise IRError("layout of " + k)


I1 = Ty("int", 1)
PTR = Ty("ptr")
VOID = Ty("void")
_ints = {}


def IntTy(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty("int", w)
    return t


F16, F32, F64, F80 = Ty("float", 16), Ty("float", 32), Ty("float", 64), Ty("float", 80)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<loc>[%@\$](?:"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>[-+]?(?:0x[KMLHR]?[0-9A-Fa-f]+|[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|[0-9]+(?![a-zA-Z$._])))
 | (?P<word>[-a-zA-Z$._0-9]+)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*|:;])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ";":
            break
        r = m(s, pos)
        if not r:
            if s[pos:].strip() == "":
                break
            raise IRError("tokenize: " + s[pos:pos + 60])
        if r.group("p") == ";":
            break
        out.append(r.group(0).strip())
        pos = r.end()
    return out


class Reg:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "%%%s" % self.i


class GRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "@" + self.name


class CExpr:
    """Constant expression: op, args (constants), extra."""
    __slots__ = ("op", "args", "ty", "extra")

    def __init__(self, op, args, ty, extra=None):
        self.op, self.args, self.ty, self.extra = op, args, ty, extra

    def __repr__(self):
        return "CExpr(%s,%r)" % (self.op, self.args)


class Undef:
    def __repr__(self):
        return "UNDEF"

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        return "UNDEF"


UNDEF = Undef()


class ZeroInit:
    def __repr__(self):
        return "ZERO"


ZERO = ZeroInit()


class CAgg:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals    # list of (ty, const)


class CBytes:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


ATTR_WORDS = {
    "noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly",
    "readnone", "writeonly", "writable", "immarg", "returned", "nest", "swiftself", "nofree",
    "local_unnamed_addr", "unnamed_addr", "dso_local", "fastcc", "ccc", "coldcc", "tail",
    "musttail", "notail", "nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz",
    "arcp", "contract", "afn", "reassoc", "volatile", "disjoint", "nneg", "dead_on_unwind",
    "allocptr", "allocalign", "hidden", "protected", "default", "inrange", "samesign",
}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref",
               "preallocated", "inalloca", "elementtype", "align", "nofpclass", "range",
               "initializes", "captures", "memory", "alignstack", "allocsize"}


class P:
    """Token-stream parser."""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %s got %s in %s" % (x, y, " ".join(self.t)[:200]))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTR_WORDS:
                self.i += 1
                continue
            if x in PAREN_ATTRS:
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        if y == "(":
                            d += 1
                        elif y == ")":
                            d -= 1
                            if d == 0:
                                break
                elif x == "align":
                    self.i += 1
                continue
            if x.startswith("#") or (x.startswith('"')):
                self.i += 1
                if self.accept("="):
                    self.i += 1
                continue
            return

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 4
        elif x[0] == "i" and x[1:].isdigit():
            t = IntTy(int(x[1:]))
        elif x == "double":
            t = F64
        elif x == "float":
            t = F32
        elif x == "half":
            t = F16
        elif x == "x86_fp80":
            t = F80
        elif x == "void":
            t = VOID
        elif x in ("label", "metadata", "token"):
            t = Ty(x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            t = Ty("array", el=el, n=n)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self.struct_body(True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                el = self.type()
                self.expect(">")
                t = Ty("vec", el=el, n=n)
        elif x == "{":
            t = self.struct_body(False)
        elif x[0] == "%":
            t = self.m.named_type(x[1:])
        else:
            raise IRError("type? %s in %s" % (x, " ".join(self.t)[:200]))
        # function type
        while self.peek() == "(" and t.k != "label":
            # only when used as function type in call: "void (ptr, ...)"
            d = 0
            while True:
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
            t = Ty("func", el=t)
        return t

    def struct_body(self, packed):
        fs = []
        if self.accept("}"):
            return Ty("struct", fields=fs, packed=packed)
        while True:
            fs.append(self.type())
            if self.accept("}"):
                break
            self.expect(",")
        return Ty("struct", fields=fs, packed=packed)

    def const_or_reg(self, ty, regmap=None):
        x = self.next()
        c = x[0]
        if c == "%":
            if regmap is None:
                raise IRError("reg in const context")
            return Reg(regmap(x[1:]))
        if c == "@":
            return GRef(x[1:].strip('"'))
        k = ty.k
        if x == "undef" or x == "poison":
            return UNDEF
        if x == "zeroinitializer":
            return ZERO
        if x == "null":
            return 0
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x == "none":
            return 0
        if k == "int" and (c.isdigit() or c == "-"):
            return int(x) & ((1 << ty.w) - 1)
        if k == "float" and (c.isdigit() or c in "-+"):
            return parse_float(x, ty)
        if x in ("getelementptr",):
            self.skip_attrs()
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                while self.next() != ")":
                    pass
            self.expect("(")
            bt = self.type()
            self.expect(",")
            args = []
            while True:
                self.accept("inrange")
                t = self.type()
                self.accept("inrange")
                args.append((t, self.const_or_reg(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return CExpr("gep", args, PTR, bt)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.const_or_reg(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return CExpr(x, [(t, v)], t2)
        if x in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            self.skip_attrs()
            self.expect("(")
            t = self.type()
            a = self.const_or_reg(t)
            self.expect(",")
            t2 = self.type()
            b = self.const_or_reg(t2)
            self.expect(")")
            return CExpr(x, [(t, a), (t2, b)], t)
        if x == "icmp":
            pred = self.next()
            self.expect("(")
            t = self.type()
            a = self.const_or_reg(t)
            self.expect(",")
            t2 = self.type()
            b = self.const_or_reg(t2)
            self.expect(")")
            return CExpr("icmp", [(t, a), (t2, b)], I1, pred)
        if x == "select":
            self.expect("(")
            args = []
            while True:
                t = self.type()
                args.append((t, self.const_or_reg(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return CExpr("select", args, args[1][0])
        if x[:2] == 'c"' and k == "array":
            return CBytes(unescape(x[2:-1]))
        if x == "[" or x == "{":
            end = "]" if x == "[" else "}"
            vals = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    vals.append((t, self.const_or_reg(t)))
                    if self.accept(end):
                        break
                    self.expect(",")
            return CAgg(vals)
        if x == "<":
            if self.accept("{"):
                vals = []
                while True:
                    t = self.type()
                    vals.append((t, self.const_or_reg(t)))
                    if self.accept("}"):
                        break
                    self.expect(",")
                self.expect(">")
                return CAgg(vals)
            vals = []
            while True:
                t = self.type()
                vals.append((t, self.const_or_reg(t)))
                if self.accept(">"):
                    break
                self.expect(",")
            return CAgg(vals)
        if x == "splat":
            self.expect("(")
            t = self.type()
            v = self.const_or_reg(t)
            self.expect(")")
            return CAgg([(t, v)] * ty.n)
        if x == "blockaddress" or x == "dso_local_equivalent" or x == "no_cfi":
            raise IRError("const " + x)
        raise IRError("const? %s (type %r) in %s" % (x, ty, " ".join(self.t)[:300]))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_float(x, ty):
    """Returns a python float (or ('nan'/'inf') handled by float)."""
    if x.startswith("0xH"):
        return struct.unpack("<e", int(x[3:], 16).to_bytes(2, "little"))[0]
    if x.startswith("0xK"):
        v = int(x[3:], 16)
        sign = v >> 79
        ex = (v >> 64) & 0x7fff
        man = v & ((1 << 64) - 1)
        if man == 0:
            return 0.0
        f = Fraction(man) * Fraction(2) ** (ex - 16383 - 63)
        return float(-f if sign else f)
    if x.startswith("0x"):
        return struct.unpack("<d", int(x[2:], 16).to_bytes(8, "little"))[0]
    return float(x)


# ---------------------------------------------------------------- module ----
class Func:
    __slots__ = ("name", "ret", "params", "lines", "blocks", "nregs", "regnames", "vararg", "code",
                 "parsed", "compiled", "sret")

    def __init__(self, name):
        self.name = name
        self.parsed = False
        self.compiled = None
        self.lines = None


class Global:
    __slots__ = ("name", "ty", "init", "const", "align", "external")


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "line")

    def __init__(self, op, dst=None, ty=None, a=(), x=None, line=""):
        self.op, self.dst, self.ty, self.a, self.x, self.line = op, dst, ty, a, x, line


DEF = re.compile(r'^define\s')
HDR = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*\(')


class Module:
    def __init__(self, path):
        self.types = {}
        self.typedefs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.ctors = []
        self._parse_file(path)

    def named_type(self, name):
        name = name.strip('"')
        t = self.types.get(name)
        if t is None:
            t = Ty("struct", fields=None, name=name)
            self.types[name] = t
            d = self.typedefs.get(name)
            if d is None:
                return t
            if d.strip() == "opaque":
                return t
            p = P(self, tokenize(d))
            b = p.type()
            t.fields = b.fields
            t.packed = b.packed
            if b.k != "struct":
                t.k, t.el, t.n, t.w = b.k, b.el, b.n, b.w
        return t

    def _parse_file(self, path):
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        gl = []
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == "%":
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m:
                    self.typedefs[m.group(1).strip('"')] = m.group(2)
            elif c == "@":
                gl.append(l)
            elif l.startswith("define "):
                m = HDR.search(l)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = Func(name)
                f.lines = (l, lines[i + 1:j])
                self.funcs[name] = f
                i = j
            elif l.startswith("declare "):
                m = HDR.search(l)
                self.decls[m.group(1).strip('"')] = l
            i += 1
        for l in gl:
            self._parse_global(l)

    def _parse_global(self, l):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        name = m.group(1).strip('"')
        rest = m.group(2)
        if name.startswith("llvm.") and name != "llvm.global_ctors":
            return
        toks = tokenize(rest)
        p = P(self, toks)
        g = Global()
        g.name = name
        g.external = False
        g.const = False
        while True:
            x = p.peek()
            if x == "alias":
                p.next()
                p.type()
                p.expect(",")
                t = p.type()
                v = p.const_or_reg(t)
                self.aliases[name] = v
                return
            if x in ("global", "constant"):
                g.const = x == "constant"
                p.next()
                break
            if x in ("external", "extern_weak"):
                g.external = True
            if x == "thread_local":
                p.next()
                if p.peek() == "(":
                    while p.next() != ")":
                        pass
                continue
            if x == "addrspace":
                p.i += 4
                continue
            p.next()
        g.ty = p.type()
        g.init = None
        if not g.external:
            g.init = p.const_or_reg(g.ty)
        g.align = 16
        if name == "llvm.global_ctors":
            if isinstance(g.init, CAgg):
                for (t, v) in g.init.vals:
                    self.ctors.append((v.vals[0][1], v.vals[1][1]))
            return
        self.globals[name] = g

    # ---- function bodies
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            a = self.aliases.get(name)
            if isinstance(a, GRef):
                return self.func(a.name)
            return None
        if not f.parsed:
            self._parse_func(f)
        return f

    def _parse_func(self, f):
        hdr, body = f.lines
        regs = {}

        def regmap(nm):
            nm = nm.strip('"')
            r = regs.get(nm)
            if r is None:
                r = regs[nm] = len(regs)
            return r

        # header
        toks = tokenize(hdr)
        k = None
        for j, t in enumerate(toks):
            if t[0] == "@" and toks[j + 1] == "(":
                k = j
                break
        p = P(self, toks)
        # return type: parse backward-safe: skip until type just before @name
        p.i = 1
        while p.i < k:
            x = p.peek()
            save = p.i
            if x in ("internal", "private", "linkonce_odr", "weak_odr", "available_externally",
                     "external", "weak", "linkonce", "comdat", "dso_preemptable"):
                p.next()
                continue
            p.skip_attrs()
            if p.i == save:
                break
        f.ret = p.type()
        p.i = k + 2
        f.params = []
        f.vararg = False
        f.sret = None
        auto = 0
        while not p.accept(")"):
            if p.accept("..."):
                f.vararg = True
                continue
            ty = p.type()
            byval = None
            # attributes (detect byval)
            st = p.i
            p.skip_attrs()
            at = p.t[st:p.i]
            if "byval" in at:
                q = P(self, at[at.index("byval") + 2:])
                byval = q.type()
            x = p.peek()
            if x and x[0] == "%":
                p.next()
                nm = x[1:]
            else:
                nm = str(auto)
            auto += 1
            f.params.append((ty, regmap(nm), byval))
            p.accept(",")
        # blocks
        blocks = {}
        order = []
        cur = None
        first = None
        lines = body
        i = 0
        n = len(lines)
        nparams = len(f.params)
        # entry block implicit label number
        curname = None

        def newblock(nm):
            b = []
            blocks[nm] = b
            order.append(nm)
            return b

        while i < n:
            l = lines[i]
            i += 1
            if not l.strip():
                continue
            if l[0] != " ":
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if not m:
                    if l.startswith(";"):
                        continue
                    raise IRError("block label? " + l)
                cur = newblock(m.group(1).strip('"'))
                continue
            if cur is None:
                cur = newblock("__entry__")
            # join continuation lines
            s = l.strip()
            if s.startswith(";"):
                continue
            if s.startswith("switch "):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif " invoke " in s or s.startswith("invoke "):
                if " unwind label" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif "landingpad" in s:
                while i < n and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            cur.append(s)
        entry = order[0]
        # the entry label's implicit number may be referenced by phis
        f.blocks = {}
        for nm in order:
            f.blocks[nm] = [self._parse_instr(s, regmap) for s in blocks[nm]]
        if entry == "__entry__":
            # numeric name of the entry block = number of unnamed params
            f.blocks[str(sum(1 for _ in f.params))] = f.blocks["__entry__"]
            f.blocks["__entryname__"] = str(len(f.params))
        f.code = entry
        f.nregs = regs
        f.parsed = True

    def _parse_instr(self, s, regmap):
        toks = tokenize(s)
        p = P(self, toks)
        dst = None
        if len(toks) > 2 and toks[0][0] == "%" and toks[1] == "=":
            dst = regmap(toks[0][1:])
            p.i = 2
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()

        def opnd(ty):
            return p.const_or_reg(ty, regmap)

        def tyopnd():
            t = p.type()
            p.skip_attrs()
            return (t, opnd(t))

        def lab():
            x = p.next()
            assert x == "label", x
            return p.next()[1:].strip('"')

        I = lambda *a, **k: Instr(*a, line=s, **k)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr",
                  "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = []
            while p.peek() in ATTR_WORDS:
                flags.append(p.next())
            t = p.type()
            a = opnd(t)
            p.expect(",")
            b = opnd(t)
            return I(op, dst, t, (a, b), x=flags)
        if op == "fneg":
            p.skip_attrs()
            t = p.type()
            return I(op, dst, t, (opnd(t),))
        if op in ("icmp", "fcmp"):
            p.skip_attrs()
            pred = p.next()
            t = p.type()
            a = opnd(t)
            p.expect(",")
            b = opnd(t)
            return I(op, dst, t, (a, b), x=pred)
        if op == "select":
            p.skip_attrs()
            tc = p.type()
            c = opnd(tc)
            p.expect(",")
            t = p.type()
            a = opnd(t)
            p.expect(",")
            t2 = p.type()
            b = opnd(t2)
            return I(op, dst, t, (c, a, b), x=tc)
        if op == "phi":
            p.skip_attrs()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = opnd(t)
                p.expect(",")
                b = p.next()[1:].strip('"')
                p.expect("]")
                inc.append((v, b))
                if not p.accept(","):
                    break
            return I(op, dst, t, (), x=inc)
        if op == "load":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            pt = p.type()
            return I(op, dst, t, (opnd(pt),))
        if op == "store":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = opnd(t)
            p.expect(",")
            pt = p.type()
            return I(op, None, t, (v, opnd(pt)))
        if op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = 1
            if p.accept(","):
                if p.peek() != "align":
                    nt = p.type()
                    n = opnd(nt)
            return I(op, dst, t, (n,))
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            bt = p.type()
            p.expect(",")
            pt = p.type()
            base = opnd(pt)
            idx = []
            while p.accept(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                t = p.type()
                idx.append((t, opnd(t)))
            return I(op, dst, bt, (base,), x=idx)
        if op in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc",
                  "fpext", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            p.skip_attrs()
            t = p.type()
            v = opnd(t)
            p.expect("to")
            t2 = p.type()
            return I(op, dst, t2, (v,), x=t)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return I(op)
            return I(op, None, t, (opnd(t),))
        if op == "br":
            if p.peek() == "label":
                return I("jmp", x=lab())
            t = p.type()
            c = opnd(t)
            p.expect(",")
            a = lab()
            p.expect(",")
            b = lab()
            return I("br", None, None, (c,), x=(a, b))
        if op == "switch":
            t = p.type()
            v = opnd(t)
            p.expect(",")
            d = lab()
            p.expect("[")
            cases = []
            while not p.accept("]"):
                tt = p.type()
                cv = opnd(tt)
                p.expect(",")
                cases.append((cv, lab()))
            return I(op, None, t, (v,), x=(cases, d))
        if op in ("call", "invoke"):
            p.skip_attrs()
            while p.peek() in ("fastcc", "ccc", "coldcc"):
                p.next()
            p.skip_attrs()
            t = p.type()
            if t.k == "func":
                t = t.el
            x = p.peek()
            if x == "asm":
                return I("asm", dst, t)
            callee = opnd(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                at = p.type()
                st0 = p.i
                p.skip_attrs()
                ats = p.t[st0:p.i]
                byval = None
                if "byval" in ats:
                    q = P(self, ats[ats.index("byval") + 2:])
                    byval = q.type()
                if at.k == "metadata":
                    # skip to , or )
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (",", ")"):
                            break
                        if y == "(":
                            d += 1
                        if y == ")":
                            d -= 1
                        p.next()
                    args.append((at, 0, None))
                else:
                    args.append((at, opnd(at), byval))
                p.accept(",")
            norm = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                norm = lab()
                p.expect("unwind")
                lab()
            return I("call", dst, t, (callee,), x=(args, norm))
        if op == "extractvalue":
            t = p.type()
            v = opnd(t)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return I(op, dst, t, (v,), x=idx)
        if op == "insertvalue":
            t = p.type()
            v = opnd(t)
            p.expect(",")
            t2 = p.type()
            e = opnd(t2)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return I(op, dst, t, (v, e), x=idx)
        if op == "extractelement":
            t = p.type()
            v = opnd(t)
            p.expect(",")
            t2 = p.type()
            return I(op, dst, t, (v, opnd(t2)))
        if op == "insertelement":
            t = p.type()
            v = opnd(t)
            p.expect(",")
            t1 = p.type()
            e = opnd(t1)
            p.expect(",")
            t2 = p.type()
            return I(op, dst, t, (v, e, opnd(t2)))
        if op == "shufflevector":
            t = p.type()
            a = opnd(t)
            p.expect(",")
            t1 = p.type()
            b = opnd(t1)
            p.expect(",")
            t2 = p.type()
            m = opnd(t2)
            return I(op, dst, t, (a, b), x=(t2, m))
        if op == "freeze":
            t = p.type()
            return I(op, dst, t, (opnd(t),))
        if op == "unreachable":
            return I(op)
        if op == "landingpad":
            return I(op, dst)
        if op == "resume":
            return I(op)
        if op == "fence":
            return I("nop")
        if op == "atomicrmw":
            p.accept("volatile")
            o = p.next()
            pt = p.type()
            ptr = opnd(pt)
            p.expect(",")
            t = p.type()
            v = opnd(t)
            return I(op, dst, t, (ptr, v), x=o)
        if op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            pt = p.type()
            ptr = opnd(pt)
            p.expect(",")
            t = p.type()
            c = opnd(t)
            p.expect(",")
            t2 = p.type()
            v = opnd(t2)
            return I(op, dst, t, (ptr, c, v))
        raise IRError("instr? " + s[:200])
