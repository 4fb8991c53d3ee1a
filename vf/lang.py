"""A small typed VHDL subset: every expression and statement carries both its VHDL text and
a Python closure that computes its meaning from the LRM, independently of nvc."""
import random

I32 = (-2147483648, 2147483647)
I64 = (-9223372036854775808, 9223372036854775807)


class VErr(Exception):
    """A run-time error that the LRM requires to be detected."""
    def __init__(self, kind, val=None):
        self.kind, self.val, self.tag = kind, val, None


def s_tag(tag, st):
    """st may fail; the error is located by a comment at the end of its line."""
    def run(fr):
        try:
            return (yield from st.run(fr))
        except VErr as e:
            if e.tag is None:
                e.tag = tag
            raise
    return S(st.lines[:-1] + [st.lines[-1] + " -- %s" % tag], run)


# ---------------------------------------------------------------- values
class Arr:
    __slots__ = ("l", "d", "r", "v")

    def __init__(self, l, d, r, v):
        self.l, self.d, self.r, self.v = l, d, r, v

    def idx(self, i):
        k = i - self.l if self.d == "to" else self.l - i
        if k < 0 or k >= len(self.v):
            raise VErr("index", i)
        return k

    def __eq__(self, o):
        return self.v == o.v

    def __hash__(self):
        return hash(tuple(self.v))

    def with_bounds(self, l, d, r):
        return Arr(l, d, r, self.v)

    def __repr__(self):
        return "Arr(%s %s %s %r)" % (self.l, self.d, self.r, self.v)


def blen(l, d, r):
    return max(0, r - l + 1 if d == "to" else l - r + 1)


# ---------------------------------------------------------------- types
class Ty:
    kind = None
    uid = 0

    def is_scalar(self):
        return self.kind in ("int", "enum", "real", "phys")

    def __repr__(self):
        return self.name


class IntTy(Ty):
    kind = "int"

    def __init__(self, name, lo, hi, base=None, dir="to"):
        self.name, self.lo, self.hi, self.dir = name, lo, hi, dir
        self.base = base or self
        # range in which arithmetic intermediate results are certainly representable
        self.alo, self.ahi = (self.base.alo, self.base.ahi) if base else (lo, hi)

    def left(self):
        return self.lo if self.dir == "to" else self.hi

    def default(self):
        return self.left()

    def check(self, v):
        if not self.lo <= v <= self.hi:
            raise VErr("range", v)
        return v

    def lit(self, v):
        if v == -2147483648 and self.base.lo == -2147483648:
            return "(-2147483647 - 1)"
        if v == I64[0]:
            return "(-9223372036854775807 - 1)"
        return str(v) if v >= 0 else "(%d)" % v

    def img(self, s):
        return "%s'image(%s)" % (self.base.name, s)

    def pimg(self, v):
        return str(v)


class PhysTy(Ty):
    kind = "phys"

    def __init__(self, name, lo, hi, unit, units, base=None):
        self.name, self.lo, self.hi, self.unit, self.units = name, lo, hi, unit, units
        self.base = base or self
        self.alo, self.ahi = (self.base.alo, self.base.ahi) if base else (lo, hi)

    def default(self):
        return self.lo

    def check(self, v):
        if not self.lo <= v <= self.hi:
            raise VErr("range", v)
        return v

    def lit(self, v):
        a = abs(v)
        best = (self.unit, 1)
        for u, m in self.units:
            if a and a % m == 0 and m > best[1]:
                best = (u, m)
        s = "%d %s" % (a // best[1], best[0])
        return "(-(%s))" % s if v < 0 else "(%s)" % s

    def img(self, s):
        return "%s'image(%s)" % (self.base.name, s)

    def pimg(self, v):
        return "%d %s" % (v, self.unit)


class RealTy(Ty):
    kind = "real"

    def __init__(self, name="real"):
        self.name = name
        self.base = self

    def default(self):
        return -1.7976931348623157e308

    def check(self, v):
        return v

    def lit(self, v):
        s = repr(float(abs(v)))
        if "e" in s and "." not in s:
            s = s.replace("e", ".0e")
        return s if v >= 0 else "(-%s)" % s

    def img(self, s):
        return "%s'image(%s)" % (self.base.name, s)

    def pimg(self, v):
        if v == int(v) and abs(v) < 1e15:
            return "%d" % int(v) if v != 0 or str(v)[0] != "-" else "-0"
        return "%.15g" % v


class EnumTy(Ty):
    kind = "enum"

    def __init__(self, name, lits, base=None, lo=None, hi=None):
        self.name, self.lits = name, lits
        self.base = base or self
        self.lo = 0 if lo is None else lo
        self.hi = len(lits) - 1 if hi is None else hi
        self.dir = "to"

    def left(self):
        return self.lo

    def default(self):
        return self.lo

    def check(self, v):
        if not self.lo <= v <= self.hi:
            raise VErr("range", v)
        return v

    def lit(self, v):
        return self.lits[v]

    def img(self, s):
        return "%s'image(%s)" % (self.base.name, s)

    def pimg(self, v):
        s = self.lits[v]
        return s if s[0] == "'" else s.lower()


class ArrTy(Ty):
    """One-dimensional array; bounds None means unconstrained."""
    kind = "arr"

    def __init__(self, name, ix, elem, bounds=None, base=None, chars=False):
        self.name, self.ix, self.elem, self.bounds = name, ix, elem, bounds
        self.base = base or self
        self.chars = chars

    def default(self):
        l, d, r = self.bounds
        return Arr(l, d, r, [self.elem.default()] * blen(l, d, r))

    def n(self):
        return blen(*self.bounds)

    def check(self, v):
        if self.bounds is None:
            for x in v.v:
                self.elem.check(x)
            return v
        if len(v.v) != self.n():
            raise VErr("length")
        return Arr(*self.bounds, [self.elem.check(x) for x in v.v])

    def ixlit(self, i):
        return self.ix.lit(i)

    def sub(self, name, l, d, r):
        return ArrTy(name, self.ix, self.elem, (l, d, r), self.base, self.chars)

    def constrained_mark(self):
        """A subtype indication giving these bounds."""
        l, d, r = self.bounds
        return "%s(%s %s %s)" % (self.base.name, self.ixlit(l), d, self.ixlit(r))

    def img(self, s):
        return "img(%s)" % s

    def pimg(self, v):
        return ("[" + self.ix_pos(v.l) + ("<" if v.d == "to" else ">") + self.ix_pos(v.r) + ":"
                + ",".join(self.elem.pimg(x) for x in v.v) + "]")

    def ix_pos(self, i):
        return str(i)

    def lit(self, v):
        if self.chars and all(self.elem.lits[x][0] == "'" for x in v.v):
            return '"' + "".join(self.elem.lits[x][1] for x in v.v).replace('"', '""') + '"'
        if len(v.v) == 1:
            return "(%s => %s)" % (self.ixlit(v.l), self.elem.lit(v.v[0]))
        if len(v.v) == 0:
            # null range aggregate
            return "(%s %s %s => %s)" % (self.ixlit(v.l), v.d, self.ixlit(v.r),
                                         self.elem.lit(some_value(self.elem)))
        return "(" + ", ".join(self.elem.lit(x) for x in v.v) + ")"

    def img_func(self):
        """VHDL text of function img for the base type."""
        b = self.base
        ixp = "%s'pos(%%s)" % b.ix.base.name
        el = b.elem.img("x(i)")
        return ["function img(x : %s) return string is" % b.name,
                "  variable l : line; variable first : boolean := true;",
                "begin",
                "  write(l, string'(\"[\") & integer'image(%s));" % (ixp % "x'left"),
                "  if x'ascending then write(l, string'(\"<\")); else write(l, string'(\">\")); end if;",
                "  write(l, integer'image(%s) & string'(\":\"));" % (ixp % "x'right"),
                "  for i in x'range loop",
                "    if not first then write(l, string'(\",\")); end if; first := false;",
                "    write(l, %s);" % el,
                "  end loop;",
                "  write(l, string'(\"]\"));",
                "  return l.all;",
                "end function;"]


class RecTy(Ty):
    kind = "rec"

    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        self.base = self

    def default(self):
        return tuple(t.default() for _, t in self.fields)

    def check(self, v):
        return tuple(t.check(x) for (_, t), x in zip(self.fields, v))

    def lit(self, v):
        if len(v) == 1:
            return "(%s => %s)" % (self.fields[0][0], self.fields[0][1].lit(v[0]))
        return "(" + ", ".join(t.lit(x) for (_, t), x in zip(self.fields, v)) + ")"

    def img(self, s):
        return "img(%s)" % s

    def pimg(self, v):
        return "{" + ";".join(t.pimg(x) for (_, t), x in zip(self.fields, v)) + "}"

    def img_func(self):
        return ["function img(x : %s) return string is" % self.name, "begin",
                "  return \"{\" & " + " & \";\" & ".join(t.img("x.%s" % f) for f, t in self.fields)
                + " & \"}\";", "end function;"]


def some_value(t):
    """A value of the subtype that is easy to write down."""
    if t.kind in ("phys", "int"):
        return max(t.lo, min(t.hi, 0))
    if t.kind == "real":
        return 0.0
    if t.kind == "enum":
        return t.lo
    if t.kind == "arr":
        return Arr(*t.bounds, [some_value(t.elem)] * t.n())
    return tuple(some_value(ft) for _, ft in t.fields)


INTEGER = IntTy("integer", *I32)
NATURAL = IntTy("natural", 0, I32[1], INTEGER)
POSITIVE = IntTy("positive", 1, I32[1], INTEGER)
BOOLEAN = EnumTy("boolean", ["false", "true"])
BIT = EnumTy("bit", ["'0'", "'1'"])
REAL = RealTy()
TIME_UNITS = [("fs", 1), ("ps", 10**3), ("ns", 10**6), ("us", 10**9), ("ms", 10**12), ("sec", 10**15)]
TIME = PhysTy("time", -I64[1] - 1, I64[1], "fs", TIME_UNITS)
BIT_VECTOR = ArrTy("bit_vector", NATURAL, BIT, chars=True)
_cc = ["nul", "soh", "stx", "etx", "eot", "enq", "ack", "bel", "bs", "ht", "lf", "vt", "ff", "cr",
       "so", "si", "dle", "dc1", "dc2", "dc3", "dc4", "nak", "syn", "etb", "can", "em", "sub",
       "esc", "fsp", "gsp", "rsp", "usp"]
CHARACTER = EnumTy("character", _cc + ["'%s'" % chr(i) for i in range(32, 127)] + ["del"])
STRING = ArrTy("string", POSITIVE, CHARACTER, chars=True)


# ---------------------------------------------------------------- frames
class Frame:
    __slots__ = ("v", "up", "rt")

    def __init__(self, up=None, rt=None):
        self.v, self.up = {}, up
        self.rt = rt if rt is not None else (up.rt if up else None)

    def get(self, n):
        f = self
        while n not in f.v:
            f = f.up
        return f.v[n]

    def set(self, n, x):
        f = self
        while n not in f.v:
            f = f.up
        f.v[n] = x


class E:
    """Expression: text, type, evaluator; iv = integer interval; n = array length."""
    __slots__ = ("s", "t", "f", "iv", "n")

    def __init__(self, s, t, f, iv=None, n=None):
        self.s, self.t, self.f, self.iv, self.n = s, t, f, iv, n

    def __repr__(self):
        return self.s


def lit(t, v):
    e = E(t.lit(v), t, lambda fr: v)
    if t.kind in ("int", "phys"):
        e.iv = (v, v)
    if t.kind == "arr":
        e.n = len(v.v)
    return e


def ref(name, t):
    e = E(name, t, lambda fr: fr.get(name))
    if t.kind in ("int", "phys"):
        e.iv = (t.lo, t.hi)
    if t.kind == "arr" and t.bounds:
        e.n = t.n()
    return e


# ---- scalar arithmetic, exact
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def trem(a, b):
    return a - tdiv(a, b) * b


def fmod_(a, b):
    return a % b      # Python's sign rule is VHDL's


def arith(op, t, x, y):
    """Evaluate with the errors the LRM requires; t is the base type."""
    if op in ("/", "mod", "rem") and y == 0:
        raise VErr("div0")
    if op == "+":
        r = x + y
    elif op == "-":
        r = x - y
    elif op == "*":
        r = x * y
    elif op == "/":
        r = tdiv(x, y)
    elif op == "mod":
        r = fmod_(x, y)
    elif op == "rem":
        r = trem(x, y)
    elif op == "**":
        if y < 0:
            raise VErr("negexp")
        r = x ** y
    else:
        raise AssertionError(op)
    if not t.alo <= r <= t.ahi:
        raise VErr("overflow")
    return r


# ---------------------------------------------------------------- statements
class S:
    """Statement: lines of VHDL and a generator function run(fr) -> signal or None."""
    __slots__ = ("lines", "run")

    def __init__(self, lines, run):
        self.lines = [lines] if isinstance(lines, str) else lines
        self.run = run


def ind(lines, k=1):
    return ["  " * k + x for x in lines]


def s_print(tag, e):
    def run(fr):
        fr.rt.out(tag + e.t.pimg(e.f(fr)))
        return
        yield
    return S('p("%s" & %s);' % (tag, e.t.img(e.s)), run)


def s_seq(ss):
    def run(fr):
        for s in ss:
            r = yield from s.run(fr)
            if r is not None:
                return r
    lines = []
    for s in ss:
        lines += s.lines
    return S(lines, run)


def s_if(arms, els):
    """arms: [(cond E, [S])]"""
    seqs = [(c, s_seq(b)) for c, b in arms]
    el = s_seq(els) if els is not None else None

    def run(fr):
        for c, b in seqs:
            if c.f(fr):
                return (yield from b.run(fr))
        if el:
            return (yield from el.run(fr))
    lines = []
    for i, (c, b) in enumerate(seqs):
        lines.append("%s %s then" % ("if" if i == 0 else "elsif", c.s))
        lines += ind(b.lines)
    if el:
        lines.append("else")
        lines += ind(el.lines)
    lines.append("end if;")
    return S(lines, run)


def s_for(var, t, lo, d, hi, body, label=None):
    """lo/hi are E; iterates over the discrete range."""
    b = s_seq(body)

    def run(fr):
        a, z = lo.f(fr), hi.f(fr)
        rng = range(a, z + 1) if d == "to" else range(a, z - 1, -1)
        f = Frame(fr)
        for i in rng:
            f.v[var] = i
            r = yield from b.run(f)
            if r is not None:
                if r[0] == "exit" and r[1] in (None, label):
                    break
                if r[0] == "next" and r[1] in (None, label):
                    continue
                return r
    mark = "" if t is INTEGER else t.name + " range "
    pre = "%s : " % label if label else ""
    return S([pre + "for %s in %s%s %s %s loop" % (var, mark, lo.s, d, hi.s)] + ind(b.lines)
             + ["end loop%s;" % (" " + label if label else "")], run)


def s_while(cond, body, label=None):
    b = s_seq(body)

    def run(fr):
        n = 0
        while cond is None or cond.f(fr):
            n += 1
            if n > 100000:
                raise RuntimeError("reference loop bound")
            r = yield from b.run(fr)
            if r is not None:
                if r[0] == "exit" and r[1] in (None, label):
                    break
                if r[0] == "next" and r[1] in (None, label):
                    continue
                return r
    pre = "%s : " % label if label else ""
    return S([pre + ("while %s loop" % cond.s if cond else "loop")] + ind(b.lines)
             + ["end loop%s;" % (" " + label if label else "")], run)


def s_jump(kind, label=None, cond=None):
    def run(fr):
        if cond is None or cond.f(fr):
            return (kind, label)
        return None
        yield
    return S("%s%s%s;" % (kind, " " + label if label else "", " when " + cond.s if cond else ""), run)


def s_return(e=None):
    def run(fr):
        return ("return", e.f(fr) if e else None)
        yield
    return S("return%s;" % (" " + e.s if e else ""), run)


def s_null():
    def run(fr):
        return
        yield
    return S("null;", run)


def s_case(sel, arms, matching=False):
    """arms: [(choice text, set of values or None for others, [S])]"""
    seqs = [(c, v, s_seq(b)) for c, v, b in arms]

    def run(fr):
        x = sel.f(fr)
        if isinstance(x, Arr):
            x = tuple(x.v)
        for c, v, b in seqs:
            if v is None or x in v:
                return (yield from b.run(fr))
        raise RuntimeError("reference case fell through")
    lines = ["case %s is" % sel.s]
    for c, v, b in seqs:
        lines.append("  when %s =>" % c)
        lines += ind(b.lines, 2)
    lines.append("end case;")
    return S(lines, run)


class LV:
    """Assignable path rooted at a variable."""
    def __init__(self, name, t):
        self.s, self.t = name, t
        self.path = []
        self.root = name

    def copy(self):
        o = LV(self.root, self.t)
        o.s, o.path = self.s, list(self.path)
        return o

    def elem(self, ie):
        o = self.copy()
        o.s += "(%s)" % ie.s
        o.path.append(("i", ie))
        o.t = self.t.elem
        return o

    def field(self, k):
        o = self.copy()
        f, t = self.t.fields[k]
        o.s += "." + f
        o.path.append(("f", k))
        o.t = t
        return o

    def slice(self, le, d, re_, t):
        o = self.copy()
        o.s += "(%s %s %s)" % (le.s, d, re_.s)
        o.path.append(("s", le, d, re_))
        o.t = t
        return o

    def resolve(self, fr):
        """Evaluate index expressions once, left to right."""
        out = []
        for p in self.path:
            if p[0] == "i":
                out.append(("i", p[1].f(fr)))
            elif p[0] == "s":
                out.append(("s", p[1].f(fr), p[2], p[3].f(fr)))
            else:
                out.append(p)
        return out

    def set(self, fr, val):
        rp = self.resolve(fr)
        fr.set(self.root, path_set(fr.get(self.root), rp, val))

    def get(self, fr):
        return path_get(fr.get(self.root), self.resolve(fr))

    def expr(self):
        e = E(self.s, self.t, self.get)
        if self.t.kind in ("int", "phys"):
            e.iv = (self.t.lo, self.t.hi)
        if self.t.kind == "arr":
            e.n = self.t.n()
        return e


def slice_of(v, l, d, r):
    n = blen(l, d, r)
    if n == 0:
        return Arr(l, d, r, [])
    if d != v.d:
        raise VErr("slicedir")
    a, b = v.idx(l), v.idx(r)
    return Arr(l, d, r, v.v[a:b + 1])


def path_get(v, path):
    for p in path:
        if p[0] == "i":
            v = v.v[v.idx(p[1])]
        elif p[0] == "f":
            v = v[p[1]]
        else:
            v = slice_of(v, *p[1:])
    return v


def path_set(v, path, val):
    if not path:
        if isinstance(v, Arr):
            if len(v.v) != len(val.v):
                raise VErr("length")
            return Arr(v.l, v.d, v.r, val.v)
        return val
    p = path[0]
    if p[0] == "i":
        k = v.idx(p[1])
        nv = list(v.v)
        nv[k] = path_set(nv[k], path[1:], val)
        return Arr(v.l, v.d, v.r, nv)
    if p[0] == "f":
        l = list(v)
        l[p[1]] = path_set(l[p[1]], path[1:], val)
        return tuple(l)
    l, d, r = p[1:]
    old = slice_of(v, l, d, r)
    new = path_set(old, path[1:], val)
    if not old.v:
        return v
    a = v.idx(l)
    nv = list(v.v)
    nv[a:a + len(old.v)] = new.v
    return Arr(v.l, v.d, v.r, nv)


def coerce(t, v):
    """Implicit subtype conversion on assignment to an object of subtype t."""
    return t.check(v)


def s_assign(lv, e):
    def run(fr):
        val = coerce(lv.t, e.f(fr))
        lv.set(fr, val)
        return
        yield
    return S("%s := %s;" % (lv.s, e.s), run)


# ---------------------------------------------------------------- subprograms
class Func:
    """params: [(name, ty, mode, cls)]; mode in/out/inout; body [S]; decls [(name, ty, init E)]."""
    def __init__(self, name, params, ret, decls, body, impure=False, lines_before=()):
        self.name, self.params, self.ret, self.decls = name, params, ret, decls
        self.body = s_seq(body) if isinstance(body, list) else body
        self.impure = impure
        self.lines_before = list(lines_before)

    def header(self):
        ps = "; ".join("%s%s : %s%s" % (p[3] + " " if len(p) > 3 and p[3] else "", p[0],
                                        "" if p[2] == "in" else p[2] + " ", p[1].name)
                       for p in self.params)
        ps = "(%s)" % ps if ps else ""
        if self.ret:
            return "%sfunction %s%s return %s" % ("impure " if self.impure else "", self.name, ps,
                                                  self.ret.name)
        return "procedure %s%s" % (self.name, ps)

    def lines(self):
        out = [self.header() + " is"]
        out += ind(self.lines_before)
        for n, t, i in self.decls:
            out.append("  variable %s : %s%s;" % (n, t.name, " := " + i.s if i else ""))
        return out + ["begin"] + ind(self.body.lines) + [
            "end %s;" % ("function" if self.ret else "procedure")]

    def enter(self, fr_static, args):
        f = Frame(fr_static)
        for p, a in zip(self.params, args):
            f.v[p[0]] = a
        for n, t, i in self.decls:
            f.v[n] = coerce(t, i.f(f)) if i else t.default()
        return f

    def call(self, fr_static, args):
        f = self.enter(fr_static, [coerce(p[1], a) for p, a in zip(self.params, args)])
        r = drive(self.body.run(f))
        if r is None or r[0] != "return":
            raise VErr("noreturn")
        return coerce(self.ret, r[1])


def drive(g):
    """Run a generator that must not wait."""
    try:
        next(g)
    except StopIteration as s:
        return s.value
    raise RuntimeError("wait in function")


def root_frame(fr):
    while fr.up:
        fr = fr.up
    return fr


def e_call(fn, args, iv=None, n=None):
    def f(fr):
        return fn.call(root_frame(fr), [a.f(fr) for a in args])
    s = fn.name + ("(%s)" % ", ".join(a.s for a in args) if args else "")
    e = E(s, fn.ret, f, iv, n)
    if iv is None and fn.ret.kind in ("int", "phys"):
        e.iv = (fn.ret.lo, fn.ret.hi)
    if n is None and fn.ret.kind == "arr" and fn.ret.bounds:
        e.n = fn.ret.n()
    return e


def s_call(fn, actuals):
    """actuals: E for in, LV for out/inout. Variables of scalar type are copy-in/copy-out."""
    def run(fr):
        args, outs = [], []
        for p, a in zip(fn.params, actuals):
            if p[2] == "in":
                args.append(coerce(p[1], a.f(fr)))
            else:
                rp = a.resolve(fr)
                cur = path_get(fr.get(a.root), rp)
                outs.append((p, a, rp))
                if p[2] == "inout" or not p[1].is_scalar():
                    args.append(coerce(p[1], cur))
                else:
                    args.append(p[1].default())
        f = fn.enter(root_frame(fr), args)
        r = yield from fn.body.run(f)
        for p, a, rp in outs:
            val = coerce(a.t, f.v[p[0]])
            fr.set(a.root, path_set(fr.get(a.root), rp, val))
        return None
    return S("%s(%s);" % (fn.name, ", ".join(a.s for a in actuals)) if actuals else fn.name + ";", run)


class RT:
    """Collects the expected output of a sequential program."""
    def __init__(self):
        self.lines = []

    def out(self, s):
        self.lines.append(s)


PRINT_PROC = ["procedure p(s : string) is begin write(output, s & LF); end procedure;"]
