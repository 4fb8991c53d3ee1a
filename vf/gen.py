"""Random well-typed, error-free sequential VHDL with its reference meaning."""
import random, re
from .lang import *


class Scope:
    def __init__(self, up=None):
        self.objs = []       # (LV or E-only name, ty, writable)
        self.up = up

    def all(self):
        s, out = self, []
        while s:
            out += s.objs
            s = s.up
        return out


class PathRef:
    __slots__ = ("g", "base", "t", "steps", "root", "_lv")

    def __init__(self, g, base, t, steps):
        self.g, self.base, self.t, self.steps, self.root = g, base, t, steps, base.root
        self._lv = None

    def lv(self):
        if self._lv is None:
            x = self.base
            for s in self.steps:
                x = x.elem(self.g.index_expr(x.t, 1)) if s == "i" else x.field(s)
            self._lv = x
        return self._lv

    def expr(self):
        return self.lv().expr()


class Gen:
    def __init__(self, rng, maxarr=6, feats=None):
        self.r = rng
        self.uid = 0
        self.types = []          # in declaration order; (ty, lines)
        self.ints = [INTEGER]
        self.enums = [BOOLEAN, BIT]
        self.arrs = [BIT_VECTOR]  # base types
        self.recs = []
        self.decls = []          # VHDL lines, architecture declarative part
        self.funcs = []
        self.procs = []
        self.maxarr = maxarr
        self.scope = Scope()
        self.named_subs = []
        self.imgs = set()
        self.feats = feats or {}
        self.loops = []
        self.use_real = True
        self.use_time = True
        self.ixdepth = 0
        self.utag = 0
        self.idf = {}

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def ch(self, p):
        return self.r.random() < p

    # ------------------------------------------------------------ types
    def ensure_img(self, t):
        b = t.base
        if b.kind in ("arr", "rec") and b.name not in self.imgs:
            self.imgs.add(b.name)
            if b.kind == "arr":
                self.ensure_img(b.elem)
            else:
                for _, ft in b.fields:
                    self.ensure_img(ft)
            self.decls += b.img_func()

    def new_int(self):
        r = self.r
        k = r.random()
        if k < .15:
            lo, hi = I64
            lo += 1
        elif k < .4:
            lo = r.choice([0, 0, -8, -128, 1, -1, -300, 200])
            hi = lo + r.choice([5, 7, 15, 255, 300, 127])
        elif k < .6:
            lo, hi = -2**r.choice([8, 15, 16, 20, 31, 33, 40]), 2**r.choice([7, 8, 15, 16, 31, 33, 40])
        else:
            lo = r.randint(-1000, 1000)
            hi = lo + r.randint(3, 5000)
        t = IntTy(self.name("ti"), lo, hi)
        self.decls.append("type %s is range %s to %s;" % (t.name, t.lit(lo), t.lit(hi)))
        self.ints.append(t)
        return t

    def new_intsub(self, base=None):
        r = self.r
        b = base or r.choice(self.ints)
        span = b.hi - b.lo
        w = min(span, r.choice([0, 1, 2, 3, 7, 10, 100, 1000, 2**20]))
        lo = r.choice([b.lo, b.hi - w, max(b.lo, min(b.hi - w, r.randint(-20, 20)))])
        t = IntTy(self.name("st"), lo, lo + w, b)
        self.decls.append("subtype %s is %s range %s to %s;" % (t.name, b.name, b.lit(lo), b.lit(lo + w)))
        self.named_subs.append(t)
        return t

    def new_enum(self):
        n = self.r.choice([1, 2, 3, 4, 5, 7, 9, 17])
        u = self.name("e")
        if self.ch(.25):
            lits = ["'%s'" % c for c in self.r.sample("01XZABCDEFGHIJKLMNOP-", min(n, 20))]
        else:
            lits = ["%s_l%d" % (u, i) for i in range(n)]
        t = EnumTy("t" + u, lits)
        t.chars = lits[0][0] == "'"
        self.decls.append("type %s is (%s);" % (t.name, ", ".join(lits)))
        self.enums.append(t)
        return t

    def scalar(self):
        k = self.r.random()
        if k < .35:
            return self.r.choice(self.ints)
        if k < .5 and self.named_subs:
            return self.r.choice(self.named_subs)
        if k < .8:
            return self.r.choice(self.enums)
        if k < .92 and self.use_real:
            return REAL
        if self.use_time and k > .96:
            return TIME
        return INTEGER

    def bounds(self, ix, n=None):
        r = self.r
        if n is None:
            n = r.choice([1, 2, 3, 4, 5, self.maxarr])
        span = ix.hi - ix.lo + 1
        n = min(n, span)
        lo = r.choice([ix.lo, ix.lo, ix.hi - n + 1, max(ix.lo, min(ix.hi - n + 1, r.randint(-4, 9)))])
        if lo == ix.hi - n + 1 and ix.hi > 10**6:
            lo = max(ix.lo, min(ix.hi - n + 1, r.randint(-4, 9)))
        if lo == ix.lo and ix.lo < -10**6:
            lo = max(ix.lo, min(ix.hi - n + 1, r.randint(-5, 5)))
        if self.ch(.5):
            return (lo, "to", lo + n - 1)
        return (lo + n - 1, "downto", lo)

    def new_arr(self, depth=0):
        r = self.r
        ix = r.choice([INTEGER, NATURAL, INTEGER] + self.named_subs[:3]
                      + [e for e in self.enums if e.base is e and len(e.lits) > 2])
        if r.random() < .25 and depth < 2 and (self.recs or len(self.arrs) > 1):
            elem = r.choice(self.recs + [self.sub_of(a) for a in self.arrs])
        else:
            elem = self.scalar()
        if elem.kind == "enum" and ix.kind == "int" and ix.lo < 0 and ix is not INTEGER:
            ix = INTEGER     # known finding: string literal whose index subtype has a negative bound
        t = ArrTy(self.name("ta"), ix, elem, None,
                  chars=elem.kind == "enum" and all(l[0] == "'" for l in elem.base.lits))
        if t.chars:
            t.elem = elem.base
        self.decls.append("type %s is array (%s range <>) of %s;" % (t.name, ix.name, t.elem.name))
        self.arrs.append(t)
        return t

    def sub_of(self, a, n=None):
        l, d, r = self.bounds(a.ix, n)
        t = a.sub(self.name("sa"), l, d, r)
        self.decls.append("subtype %s is %s;" % (t.name, t.constrained_mark()))
        return t

    def new_rec(self):
        r = self.r
        fs = []
        for i in range(r.choice([1, 2, 3, 4])):
            k = r.random()
            if k < .3:
                ft = self.sub_of(r.choice(self.arrs))
            elif k < .45 and self.recs:
                ft = r.choice(self.recs)
            else:
                ft = self.scalar()
            fs.append(("f%d" % i, ft))
        t = RecTy(self.name("tr"), fs)
        self.decls.append("type %s is record" % t.name)
        self.decls += ["  %s : %s;" % (f, ft.name) for f, ft in fs]
        self.decls.append("end record;")
        self.recs.append(t)
        return t

    def any_type(self):
        k = self.r.random()
        if k < .5:
            return self.scalar()
        if self.feats.get("noarr"):
            return self.scalar()
        if k < .85 or not self.recs:
            return self.sub_of(self.r.choice(self.arrs))
        return self.r.choice(self.recs)

    # ------------------------------------------------------------ objects
    def paths(self, t_pred, writable=False, depth=3):
        """Every path in scope whose type satisfies pred; indices are chosen on use."""
        out = []
        for lv, wr in self.scope.all():
            if not writable or wr:
                self._paths(lv, lv.t, (), t_pred, out, depth)
        return out

    def _paths(self, lv, t, steps, pred, out, depth):
        if pred(t):
            out.append(PathRef(self, lv, t, steps))
        if depth and t.kind == "rec":
            for k in range(len(t.fields)):
                self._paths(lv, t.fields[k][1], steps + (k,), pred, out, depth - 1)
        if depth and t.kind == "arr" and t.n() > 0 and self._may(t.elem, pred, depth - 1):
            self._paths(lv, t.elem, steps + ("i",), pred, out, depth - 1)

    def _may(self, t, pred, depth):
        if pred(t):
            return True
        if t.kind == "rec" and depth:
            return any(self._may(ft, pred, depth - 1) for _, ft in t.fields)
        if t.kind == "arr" and depth:
            return self._may(t.elem, pred, depth - 1)
        return False

    def index_expr(self, at, d):
        l, dr, r = at.bounds
        lo, hi = min(l, r), max(l, r)
        if self.ixdepth >= 2:
            return lit(at.ix, self.r.randint(lo, hi))
        self.ixdepth += 1
        try:
            return self.in_range(at.ix, lo, hi, d)
        finally:
            self.ixdepth -= 1

    def in_range(self, t, lo, hi, d):
        """Discrete expression of type t certainly within lo..hi."""
        if lo == hi or self.ch(.35):
            return self.maybe_const(t, self.r.randint(lo, hi))
        if t.kind == "enum":
            b = t.base
            n = hi - lo + 1
            i = self.small(self.int_expr(INTEGER, d - 1), n)
            e = E("%s'val(%d + %s)" % (b.name, lo, i.s), b, lambda fr: lo + i.f(fr))
            return e
        e = self.int_expr(t.base, d - 1)
        return self.clamp(e, lo, hi, t.base)

    def maybe_const(self, t, v):
        return lit(t, v)

    def clamp(self, e, lo, hi, t):
        if e.iv[0] >= lo and e.iv[1] <= hi:
            return e
        n = hi - lo + 1
        if n > t.ahi:
            # cannot be written as a modulus of this type
            return lit(t, self.r.choice([lo, hi]))
        m = self.small(e, n)
        if not (0 <= m.iv[0] and m.iv[1] < n):
            return lit(t, self.r.randint(lo, hi))
        if lo == 0:
            return m
        if lo + n - 1 > t.ahi or lo < t.alo or n - 1 > t.ahi:
            return lit(t, self.r.randint(lo, hi))
        if not (t.alo <= lo <= t.ahi and t.alo <= m.iv[0] + lo and m.iv[1] + lo <= t.ahi):
            return lit(t, self.r.randint(lo, hi))
        return self.binop(t, "+", m, lit(t, lo))

    def small(self, e, n):
        """e mod n (result 0..n-1)."""
        t = e.t.base
        if e.iv[0] >= 0 and e.iv[1] < n:
            return e
        if n == 1 and t.alo <= 0 <= t.ahi:
            return lit(t, 0)
        if not t.alo <= n <= t.ahi or t.alo > 0:
            return lit(t, max(t.alo, min(t.ahi, self.r.randint(0, n - 1))))
        return E("(%s mod %s)" % (e.s, t.lit(n)), t, lambda fr: e.f(fr) % n, (0, n - 1))

    # ------------------------------------------------------------ integer expressions
    def binop(self, t, op, a, b):
        def f(fr):
            return arith(op, t, a.f(fr), b.f(fr))
        la, ha = a.iv
        lb, hb = b.iv
        if op == "+":
            iv = (la + lb, ha + hb)
        elif op == "-":
            iv = (la - hb, ha - lb)
        elif op == "*":
            c = [la * lb, la * hb, ha * lb, ha * hb]
            iv = (min(c), max(c))
        elif op == "/":
            m = max(abs(la), abs(ha))
            iv = (-m, m) if la < 0 or lb < 0 else (0, ha)
            if lb == hb != 0:
                c = [tdiv(la, lb), tdiv(ha, lb)] + ([0] if la < 0 < ha else [])
                iv = (min(c), max(c))
        elif op == "mod":
            iv = (0, hb - 1) if lb > 0 else (lb + 1, 0) if hb < 0 else \
                (min(lb + 1, 0), max(hb - 1, 0))
        elif op == "rem":
            m = max(abs(lb), abs(hb)) - 1
            m = min(m, max(abs(la), abs(ha)))
            iv = (-m if la < 0 else 0, m if ha > 0 else 0)
        elif op == "**":
            lb, hb = max(lb, 0), max(hb, 0)
            c = [la ** lb, la ** hb, ha ** lb, ha ** hb, 0, 1, -1]
            m = max(abs(x) for x in c)
            iv = (-m if la < 0 else 0, m)
        return E("(%s %s %s)" % (a.s, op, b.s), t, f, iv)

    def fits(self, t, iv):
        return t.alo <= iv[0] and iv[1] <= t.ahi

    def int_leaf(self, t):
        r = self.r
        if self.ch(.7):
            ps = self.paths(lambda x: x.kind == "int" and x.base is t)
            if ps:
                return r.choice(ps).expr()
        return lit(t, self.int_val(t))

    def int_val(self, t):
        r = self.r
        k = r.random()
        lo, hi = t.lo, t.hi
        if k < .3:
            v = r.randint(-3, 10)
        elif k < .45:
            v = r.choice([lo, hi, lo + 1, hi - 1])
        elif k < .6:
            v = r.choice([1, -1]) * (2 ** r.randint(0, 62) + r.randint(-1, 1))
        elif k < .8:
            v = r.randint(-300, 300)
        else:
            v = r.randint(lo, hi)
        return max(lo, min(hi, v))

    def int_expr(self, t, d):
        """t: base integer type. Always has iv within t.alo..t.ahi."""
        r = self.r
        if d <= 0:
            return self.int_leaf(t)
        for _ in range(8):
            k = r.random()
            if k < .12:
                return self.int_leaf(t)
            if k < .55:
                op = r.choice(["+", "-", "*", "+", "-"])
                a, b = self.int_expr(t, d - 1), self.int_expr(t, d - 1)
                e = self.binop(t, op, a, b)
                for _ in range(4):
                    if self.fits(t, e.iv):
                        break
                    n = r.choice([7, 10, 100, 1000, 16, 32768, 46340])
                    if self.ch(.5):
                        a = self.small(a, min(n, max(2, t.ahi)))
                    else:
                        b = self.small(b, min(n, max(2, t.ahi)))
                    e = self.binop(t, op, a, b)
                if self.fits(t, e.iv):
                    return e
                continue
            if k < .72:
                op = r.choice(["/", "mod", "rem"])
                a = self.int_expr(t, d - 1)
                b = self.nonzero(t, d - 1)
                if b is None:
                    continue
                e = self.binop(t, op, a, b)
                if op == "/" and a.iv[0] == t.alo and b.iv[0] <= -1 <= b.iv[1]:
                    continue
                if self.fits(t, e.iv):
                    return e
                continue
            if k < .76:
                a = self.int_expr(t, d - 1)
                if t.ahi > 2000 and t.alo < -2000:
                    a = self.binop(t, "-", self.small(a, 13), lit(t, 6)) if self.ch(.6) else \
                        self.small(a, 3)
                    kk = r.randint(0, 3)
                    if self.ch(.5):
                        b = self.small(self.int_expr(INTEGER, d - 1), kk + 1)
                    else:
                        b = lit(INTEGER, kk)
                    return self.binop(t, "**", a, b)
                continue
            if k < .80:
                a = self.int_expr(t, d - 1)
                if -a.iv[0] <= t.ahi and -a.iv[1] >= t.alo:
                    return E("(-%s)" % a.s, t, lambda fr: -a.f(fr), (-a.iv[1], -a.iv[0]))
                continue
            if k < .83:
                a = self.int_expr(t, d - 1)
                if -a.iv[0] <= t.ahi:
                    return E("(abs %s)" % a.s, t, lambda fr: abs(a.f(fr)),
                             (0 if a.iv[0] <= 0 <= a.iv[1] else min(abs(a.iv[0]), abs(a.iv[1])),
                              max(abs(a.iv[0]), abs(a.iv[1]))))
                continue
            if k < .87 and len(self.ints) > 1:
                t2 = r.choice([x for x in self.ints if x is not t] or [t])
                a = self.clamp(self.int_expr(t2, d - 1), max(t.lo, t2.lo), min(t.hi, t2.hi), t2) \
                    if max(t.lo, t2.lo) <= min(t.hi, t2.hi) else None
                if a is None or not (t.lo <= a.iv[0] and a.iv[1] <= t.hi):
                    continue
                return E("%s(%s)" % (t.name, a.s), t, a.f, a.iv)
            if k < .90 and t is INTEGER:
                en = r.choice(self.enums)
                a = self.enum_expr(en.base, d - 1)
                return E("%s'pos(%s)" % (en.base.name, a.s), t, a.f, (0, len(en.base.lits) - 1))
            if k < .93 and t is INTEGER:
                ps = self.paths(lambda x: x.kind == "arr")
                if ps:
                    p = r.choice(ps).lv()
                    at = p.t
                    n = at.n()
                    if n > 0 and at.ix.kind == "int" and at.ix.base is INTEGER and self.ch(.6):
                        a = r.choice(["left", "right", "low", "high"])
                        l, dr, rr = at.bounds
                        v = {"left": l, "right": rr, "low": min(l, rr), "high": max(l, rr)}[a]
                        return E("%s'%s" % (p.s, a), t, lambda fr: v, (v, v))
                    return E("%s'length" % p.s, t, lambda fr: n, (n, n))
                continue
            if k < .96:
                fs = [f for f in self.funcs if f.ret.kind == "int" and f.ret.base is t
                      and not getattr(f, "hidden", False)]
                if fs:
                    return self.call_expr(r.choice(fs), d - 1)
                continue
            if k < .98:
                a, b = self.int_expr(t, d - 1), self.int_expr(t, d - 1)
                w = r.choice(["maximum", "minimum"])
                fn = max if w == "maximum" else min
                return E("%s(%s, %s)" % (w, a.s, b.s), t, lambda fr: fn(a.f(fr), b.f(fr)),
                         (fn(a.iv[0], b.iv[0]), fn(a.iv[1], b.iv[1])))
            if t is INTEGER and self.use_real:
                a = self.real_expr(d - 1)
                # avoid ties: scale away by doubling and truncating towards an integer grid
                if abs(a.iv[0]) < 1e8 and abs(a.iv[1]) < 1e8:
                    def f(fr):
                        v = a.f(fr) * 4.0 + 0.25
                        return int(v + 0.5) if v >= 0 else -int(-v + 0.5)
                    m = int(max(abs(a.iv[0]), abs(a.iv[1])) * 4 + 2)
                    return E("integer(%s * 4.0 + 0.25)" % a.s, t, f, (-m, m))
                continue
            a = self.ite(t, d)
            if a:
                return a
        return self.int_leaf(t)

    def nonzero(self, t, d):
        r = self.r
        if self.ch(.4):
            v = self.int_val(t)
            if v != 0:
                return lit(t, v)
        e = self.int_expr(t, d)
        if e.iv[0] > 0 or e.iv[1] < 0:
            return e
        n = r.choice([2, 3, 8, 10, 100])
        if t.ahi > n + 1 and t.alo <= 0:
            m = self.binop(t, "+", self.small(e, n), lit(t, 1))
            if self.ch(.4) and t.alo < -n - 1:
                return E("(-%s)" % m.s, t, lambda fr: -m.f(fr), (-m.iv[1], -m.iv[0]))
            return m
        v = max(t.lo, min(t.hi, 1))
        return lit(t, v) if v else None

    def ite(self, t, d):
        return None

    # ------------------------------------------------------------ other scalars
    def enum_expr(self, t, d):
        r = self.r
        if t is BOOLEAN and d > 0:
            return self.bool_expr(d)
        if t is BIT and d > 0 and self.ch(.5):
            op = r.choice(["and", "or", "xor", "nand", "nor", "xnor", "not"])
            a = self.enum_expr(t, d - 1)
            if op == "not":
                return E("(not %s)" % a.s, t, lambda fr: 1 - a.f(fr))
            b = self.enum_expr(t, d - 1)
            fn = LOGIC[op]
            return E("(%s %s %s)" % (a.s, op, b.s), t, lambda fr: fn(a.f(fr), b.f(fr)))
        if d > 0 and self.ch(.4):
            k = r.random()
            n = len(t.lits)
            if k < .4:
                i = self.small(self.int_expr(INTEGER, d - 1), n)
                return E("%s'val(%s)" % (t.name, i.s), t, i.f)
            if k < .6 and n > 1:
                v = r.randint(0, n - 2)
                c = self.bool_expr(d - 1)
                up = self.ch(.5)
                w = v if up else v + 1
                return E("%s'%s(%s)" % (t.name, "succ" if up else "pred", t.lit(w)), t,
                         lambda fr: w + 1 if up else w - 1)
            if k < .8:
                a, b = self.enum_expr(t, d - 1), self.enum_expr(t, d - 1)
                w = r.choice(["maximum", "minimum"])
                fn = max if w == "maximum" else min
                return E("%s(%s, %s)" % (w, a.s, b.s), t, lambda fr: fn(a.f(fr), b.f(fr)))
            fs = [f for f in self.funcs if f.ret is t and not getattr(f, "hidden", False)]
            if fs:
                return self.call_expr(r.choice(fs), d - 1)
        if self.ch(.7):
            ps = self.paths(lambda x: x.kind == "enum" and x.base is t)
            if ps:
                return r.choice(ps).expr()
        return lit(t, r.randrange(len(t.lits)))

    def bool_expr(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .08:
            ps = self.paths(lambda x: x.base is BOOLEAN)
            if ps and self.ch(.8):
                return r.choice(ps).expr()
            return lit(BOOLEAN, r.randrange(2))
        if k < .35:
            op = r.choice(["and", "or", "xor", "nand", "nor", "xnor", "not"])
            a = self.bool_expr(d - 1)
            if op == "not":
                return E("(not %s)" % a.s, BOOLEAN, lambda fr: 1 - a.f(fr))
            b = self.bool_expr(d - 1)
            fn = LOGIC[op]
            if op in ("and", "nand"):
                inv = op == "nand"
                return E("(%s %s %s)" % (a.s, op, b.s), BOOLEAN,
                         lambda fr: ((1 if a.f(fr) and b.f(fr) else 0) ^ inv))
            if op in ("or", "nor"):
                inv = op == "nor"
                return E("(%s %s %s)" % (a.s, op, b.s), BOOLEAN,
                         lambda fr: ((1 if a.f(fr) or b.f(fr) else 0) ^ inv))
            return E("(%s %s %s)" % (a.s, op, b.s), BOOLEAN, lambda fr: fn(a.f(fr), b.f(fr)))
        return self.relation(d)

    RELS = {"=": lambda a, b: a == b, "/=": lambda a, b: a != b, "<": lambda a, b: a < b,
            "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}

    def relation(self, d):
        r = self.r
        op = r.choice(list(self.RELS))
        fn = self.RELS[op]
        k = r.random()
        if k < .45:
            t = r.choice(self.ints)
            a, b = self.int_expr(t, d - 1), self.int_expr(t, d - 1)
            if self.ch(.3):
                b = lit(t, max(t.lo, min(t.hi, a.iv[0] + r.randint(0, max(0, min(20, a.iv[1] - a.iv[0]))))))
        elif k < .6:
            t = r.choice(self.enums)
            # a bare literal on both sides could be ambiguous between types
            a, b = self.qual(self.enum_expr(t.base, d - 1)), self.qual(self.enum_expr(t.base, d - 1))
        elif k < .68 and self.use_real:
            a, b = self.real_expr(d - 1), self.real_expr(d - 1)
        elif k < .74 and self.use_time:
            a, b = self.time_expr(d - 1), self.time_expr(d - 1)
        elif k < .9:
            at = r.choice(self.arrs)
            n = r.choice([0, 1, 2, 3, 4, 5])
            m = n if self.ch(.7) else r.choice([0, 1, 2, 3, 5])
            cap = at.ix.hi - at.ix.lo + 1
            n, m = min(n, cap), min(m, cap)
            if not at.elem.is_scalar() or at.elem.kind in ("real", "phys"):
                op = r.choice(["=", "/="])
                fn = self.RELS[op]
            a, b = self.qual(self.arr_expr(at, n, d - 1)), self.qual(self.arr_expr(at, m, d - 1))
            return E("(%s %s %s)" % (a.s, op, b.s), BOOLEAN,
                     lambda fr: int(fn(a.f(fr).v, b.f(fr).v)))
        elif self.recs:
            t = r.choice(self.recs)
            op = r.choice(["=", "/="])
            fn = self.RELS[op]
            a, b = self.qual(self.rec_expr(t, d - 1)), self.qual(self.rec_expr(t, d - 1))
        else:
            a, b = self.int_expr(INTEGER, d - 1), self.int_expr(INTEGER, d - 1)
        return E("(%s %s %s)" % (a.s, op, b.s), BOOLEAN, lambda fr: int(fn(a.f(fr), b.f(fr))))

    def qual(self, e):
        return E("%s'(%s)" % (e.t.base.name, e.s), e.t, e.f, e.iv, e.n)

    def real_expr(self, d):
        r = self.r
        if d <= 0 or self.ch(.2):
            ps = self.paths(lambda x: x.kind == "real")
            if ps and self.ch(.6):
                e = r.choice(ps).expr()
                e.iv = (-1e6, 1e6)
                return e
            v = r.randint(-4000, 4000) / 4.0 if self.ch(.6) else r.choice(
                [0.0, 1.0, 0.1, -2.5, 3.0e-3, 1.0 / 3.0, 1234.5678])
            e = lit(REAL, v)
            e.iv = (v, v)
            return e
        k = r.random()
        if k < .6:
            op = r.choice("+-*")
            a, b = self.real_expr(d - 1), self.real_expr(d - 1)
            fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
            ma = max(abs(a.iv[0]), abs(a.iv[1]))
            mb = max(abs(b.iv[0]), abs(b.iv[1]))
            m = ma * mb if op == "*" else ma + mb
            if m < 1e30:
                return E("(%s %s %s)" % (a.s, op, b.s), REAL, lambda fr: fn(a.f(fr), b.f(fr)), (-m, m))
            return a
        if k < .7:
            a = self.real_expr(d - 1)
            dv = r.choice([2.0, 4.0, -8.0, 3.0, 7.0, 0.5])
            m = max(abs(a.iv[0]), abs(a.iv[1])) / abs(dv)
            return E("(%s / %s)" % (a.s, REAL.lit(dv)), REAL, lambda fr: a.f(fr) / dv, (-m, m))
        if k < .8:
            a = self.real_expr(d - 1)
            m = max(abs(a.iv[0]), abs(a.iv[1]))
            if self.ch(.5):
                return E("(abs %s)" % a.s, REAL, lambda fr: abs(a.f(fr)), (0.0, m))
            return E("(-%s)" % a.s, REAL, lambda fr: -a.f(fr), (-m, m))
        a = self.int_expr(INTEGER, d - 1)
        m = float(max(abs(a.iv[0]), abs(a.iv[1])))
        return E("real(%s)" % a.s, REAL, lambda fr: float(a.f(fr)), (-m, m))

    def real_bounded(self, d):
        """A real expression of bounded magnitude, for assignment to objects."""
        a = self.real_expr(d)
        m = max(abs(a.iv[0]), abs(a.iv[1]))
        if m <= 1e6:
            return a
        i = self.int_expr(INTEGER, d - 1)
        i = self.small(i, 1000)
        return E("(real(%s) / 8.0)" % i.s, REAL, lambda fr: float(i.f(fr)) / 8.0, (0.0, 125.0))

    TLIM = 10**17

    def time_expr(self, d):
        r = self.r
        if d <= 0 or self.ch(.25):
            ps = self.paths(lambda x: x.kind == "phys")
            if ps and self.ch(.6):
                e = r.choice(ps).expr()
                e.iv = (-self.TLIM, self.TLIM)
                return e
            v = r.randint(0, 50) * 10 ** r.choice([0, 3, 6, 9, 12]) * r.choice([1, 1, -1])
            return lit(TIME, v)
        k = r.random()
        if k < .4:
            op = r.choice("+-")
            a, b = self.time_expr(d - 1), self.time_expr(d - 1)
            e = self.binop(TIME, op, a, b)
            e.t = TIME
        elif k < .7:
            a = self.time_expr(d - 1)
            i = self.int_expr(INTEGER, d - 1)
            if self.ch(.5):
                i = self.small(i, 100)
            e = self.binop(TIME, "*", a, i)
            if self.ch(.4):
                e.s = "(%s * %s)" % (i.s, a.s)
        elif k < .85:
            a = self.time_expr(d - 1)
            i = self.nonzero(INTEGER, d - 1) or lit(INTEGER, 3)
            e = self.binop(TIME, "/", a, i)
        else:
            a = self.time_expr(d - 1)
            m = max(abs(a.iv[0]), abs(a.iv[1]))
            e = E("(abs %s)" % a.s, TIME, lambda fr: abs(a.f(fr)), (0, m)) if self.ch(.5) else \
                E("(-%s)" % a.s, TIME, lambda fr: -a.f(fr), (-m, m))
        if max(abs(e.iv[0]), abs(e.iv[1])) > 4 * 10**18:
            return self.time_expr(0)
        return e

    def time_bounded(self, d):
        for _ in range(5):
            e = self.time_expr(d)
            if max(abs(e.iv[0]), abs(e.iv[1])) <= self.TLIM:
                return e
        return lit(TIME, 7000)

    # ------------------------------------------------------------ composites
    def expr(self, t, d):
        """Expression of subtype t that certainly belongs to the subtype."""
        if t.kind == "int":
            return self.clamp(self.int_expr(t.base, d), t.lo, t.hi, t.base)
        if t.kind == "enum":
            if t.base is not t:
                return self.in_range(t, t.lo, t.hi, d)
            return self.enum_expr(t, d)
        if t.kind == "real":
            return self.real_bounded(d)
        if t.kind == "phys":
            return self.time_bounded(d)
        if t.kind == "arr":
            return self.arr_expr(t.base, t.n(), d, t)
        return self.rec_expr(t, d)

    def arr_expr(self, b, n, d, target=None):
        """Array expression of base type b with exactly n elements. Without a target the bounds
        must not depend on context."""
        r = self.r
        opts = []
        ps = self.paths(lambda x: x.kind == "arr" and x.base is b and x.n() == n)
        if ps:
            opts += ["var"] * 3
        big = self.paths(lambda x: x.kind == "arr" and x.base is b and x.n() >= max(n, 1))
        if big:
            opts += ["slice"] * 2
        if d > 0:
            opts.append("agg")
            if n >= 1 and self.ixroom(b, n):
                opts.append("concat")
            if b.elem is BIT or b.elem is BOOLEAN:
                opts += ["logic", "shift"]
            fs = [f for f in self.funcs if f.ret is not None and f.ret.kind == "arr"
                  and f.ret.base is b and f.ret.bounds and f.ret.n() == n
                  and not getattr(f, "hidden", False)]
            if fs:
                opts.append("call")
        opts.append("lit")
        k = r.choice(opts)
        if n == 0 and k in ("agg", "lit", "concat"):
            if big:
                k = "slice"
        if k == "var":
            return r.choice(ps).expr()
        if k == "slice":
            return self.slice_expr(r.choice(big).lv(), n, d)
        if k == "call":
            return self.call_expr(r.choice(fs), d - 1)
        if k == "logic":
            op = r.choice(["and", "or", "xor", "nand", "nor", "xnor", "not"])
            a = self.qual_if_lit(self.arr_expr(b, n, d - 1))
            if op == "not":
                return E("(not %s)" % a.s, b, lambda fr: _map1(a.f(fr)), n=n)
            fn = LOGIC[op]
            if self.ch(.2):
                c = self.qual(self.enum_expr(b.elem, d - 1))
                if self.ch(.5):
                    return E("(%s %s %s)" % (a.s, op, c.s), b, lambda fr: _maps(fn, a.f(fr), c.f(fr)), n=n)
                return E("(%s %s %s)" % (c.s, op, a.s), b, lambda fr: _maps(fn, a.f(fr), c.f(fr)), n=n)
            c = self.qual_if_lit(self.arr_expr(b, n, d - 1))
            return E("(%s %s %s)" % (a.s, op, c.s), b, lambda fr: _map2(fn, a.f(fr), c.f(fr)), n=n)
        if k == "shift":
            op = r.choice(["sll", "srl", "sla", "sra", "rol", "ror"])
            a = self.qual_if_lit(self.arr_expr(b, n, d - 1))
            i = self.binop(INTEGER, "-", self.small(self.int_expr(INTEGER, d - 1), 2 * n + 5),
                           lit(INTEGER, n + 2))
            return E("(%s %s %s)" % (a.s, op, i.s), b, lambda fr: _shift(op, a.f(fr), i.f(fr)), n=n)
        if k == "concat":
            return self.concat(b, n, d)
        if k == "agg":
            return self.aggregate(b, n, d, target)
        # literal / context-independent aggregate
        t = b.sub("?", *self.lit_bounds(b, n))
        vals = [self.const_val(b.elem) for _ in range(n)]
        v = Arr(*t.bounds, vals)
        if n == 0:
            l, dr, rr = t.bounds
            e = lit(t, v)
            e.t = b
            return e
        e = lit(t, v)
        e.t = b
        if n == 1 and not (b.chars and e.s[0] == '"'):
            if target is not None:
                l = target.bounds[0]
                v = Arr(l, "to", l, vals)
                e.f = lambda fr: v
            e.s = "(%s => %s)" % (b.ixlit(v.l), b.elem.lit(vals[0]))
        return e

    def qual_if_lit(self, e):
        return self.qual(e)

    def lit_bounds(self, b, n):
        """Bounds of a string literal or positional aggregate without an index constraint."""
        lo = b.ix.lo
        if n == 0:
            # left of the index subtype, right is its predecessor; only legal if it exists
            return (b.ix.lo + 1, "to", b.ix.lo) if b.ix.hi > b.ix.lo else (b.ix.lo, "to", b.ix.lo - 1)
        return (lo, "to", lo + n - 1)

    def ixroom(self, b, n):
        return b.ix.hi - b.ix.lo + 1 >= n

    def const_val(self, t):
        r = self.r
        if t.kind == "int":
            return max(t.lo, min(t.hi, self.int_val(t)))
        if t.kind == "enum":
            return r.randint(t.lo, t.hi)
        if t.kind == "real":
            return r.randint(-400, 400) / 4.0
        if t.kind == "phys":
            return r.randint(0, 50) * 10 ** r.choice([0, 3, 6, 9])
        if t.kind == "arr":
            return Arr(*t.bounds, [self.const_val(t.elem) for _ in range(t.n())])
        return tuple(self.const_val(ft) for _, ft in t.fields)

    def slice_expr(self, lv, n, d):
        at = lv.t
        l, dr, rr = at.bounds
        lo, hi = min(l, rr), max(l, rr)
        b = at.base
        tot = at.n()
        if n == 0:
            # null slice: bounds within the array
            if tot < 2:
                v = lo
                if dr == "to" and v > b.ix.lo:
                    x, y = v, v - 1
                elif dr == "downto" and v > b.ix.lo:
                    x, y = v - 1, v
                else:
                    return self.null_lit(b)
            else:
                v = self.r.randint(lo, hi - 1)
                x, y = (v + 1, v) if dr == "to" else (v, v + 1)
            le, re_ = lit(b.ix, x), lit(b.ix, y)
        else:
            off = tot - n
            if b.ix.kind == "int" and self.ch(.5) and off > 0 and self.fits(b.ix.base, (lo, hi)) and d > 0:
                k = self.in_range(b.ix.base, lo, lo + off, d)
                k2 = self.binop(b.ix.base, "+", k, lit(b.ix.base, n - 1)) if n > 1 else k
                if n > 1 and not self.fits(b.ix.base, (n - 1, n - 1)):
                    k = lit(b.ix.base, lo)
                    k2 = lit(b.ix.base, lo + n - 1)
            else:
                o = self.r.randint(0, off)
                k, k2 = lit(b.ix, lo + o), lit(b.ix, lo + o + n - 1)
            le, re_ = (k, k2) if dr == "to" else (k2, k)
        st = b.sub("?", l, dr, rr)

        def f(fr):
            return slice_of(lv.get(fr), le.f(fr), dr, re_.f(fr))
        return E("%s(%s %s %s)" % (lv.s, le.s, dr, re_.s), b, f, n=n)

    def null_lit(self, b):
        t = b.sub("?", *self.lit_bounds(b, 0))
        return E(t.lit(Arr(*t.bounds, [])), b, lambda fr: Arr(*t.bounds, []), n=0)

    def concat(self, b, n, d):
        r = self.r
        k = r.randint(0, n)
        parts = []
        for m in (k, n - k):
            if m == 1 and self.ch(.6) and b.elem.kind != "arr":
                e = self.expr(b.elem, d - 1)
                q = "%s'(%s)" % (e.t.base.name, e.s)
                parts.append(E(q, b, (lambda g: lambda fr: Arr(0, "to", 0, [g(fr)]))(e.f), n=1))
            else:
                parts.append(self.qual_if_lit(self.arr_expr(b, m, d - 1)))
        x, y = parts
        lo = b.ix.lo

        def f(fr):
            a, c = x.f(fr), y.f(fr)
            if not a.v and not c.v:
                return c
            v = a.v + c.v
            return Arr(lo, "to", lo + len(v) - 1, v)
        return E("(%s & %s)" % (x.s, y.s), b, f, n=n)

    def aggregate(self, b, n, d, target):
        r = self.r
        es = [self.expr(b.elem, d - 1) for _ in range(n)]
        if n == 0:
            return self.null_lit(b)
        k = r.random()
        if target is not None and n > 1 and k < .35:
            # others, only with a target that supplies the bounds
            l, dr, rr = target.bounds
            npos = r.randint(0, n - 1)
            # one evaluation of the others expression per element; expressions are pure
            o = es[-1]
            if self.ch(.5):
                s = "(" + ", ".join([e.s for e in es[:npos]] + ["others => %s" % o.s]) + ")"

                def f(fr):
                    return Arr(l, dr, rr, [es[i].f(fr) if i < npos else o.f(fr) for i in range(n)])
            else:
                ks = r.sample(range(n), npos)
                at = {kk: es[j] for j, kk in enumerate(ks)}

                def ixof(i):
                    return l + i if dr == "to" else l - i
                s = "(" + ", ".join(["%s => %s" % (b.ixlit(ixof(kk)), at[kk].s) for kk in ks]
                                    + ["others => %s" % o.s]) + ")"

                def f(fr):
                    return Arr(l, dr, rr, [at.get(i, o).f(fr) for i in range(n)])
            return E("%s" % s, b, f, n=n)
        if k < .75 or n == 1 or not self.ixroom(b, n):
            # named: bounds given by the choices; ascending only
            # (known finding: negative choices, descending anonymous subtype)
            if self.ixroom(b, n) and not (target is not None and target.name == "?" and
                                          target.bounds[1] == "downto" and target.bounds[2] < 0):
                lo = max(b.ix.lo, min(b.ix.hi - n + 1, r.choice([b.ix.lo if b.ix.lo > -10**6 else 0, r.randint(-3, 5)])))
                if target is not None:
                    lo = min(target.bounds[0], target.bounds[2])
                    dsc = target.bounds[1]
                else:
                    dsc = "to"
                if self.ch(.3) and n > 1:
                    c = r.randint(1, n)
                    e0 = es[0]
                    if c > 1 and dsc == "to":
                        s0 = "%s to %s => %s" % (b.ixlit(lo), b.ixlit(lo + c - 1), e0.s)
                    elif c > 1:
                        s0 = "%s downto %s => %s" % (b.ixlit(lo + c - 1), b.ixlit(lo), e0.s)
                    else:
                        s0 = "%s => %s" % (b.ixlit(lo), e0.s)
                    rest = list(range(c, n))
                    r.shuffle(rest)
                    s = "(" + ", ".join([s0] + ["%s => %s" % (b.ixlit(lo + j), es[j].s) for j in rest]) + ")"

                    def f(fr):
                        vals = [e0.f(fr) if j < c else es[j].f(fr) for j in range(n)]
                        return Arr(lo, "to", lo + n - 1, vals) if dsc == "to" else \
                            Arr(lo + n - 1, "downto", lo, vals[::-1])
                    return E(s, b, f, n=n)
                order = list(range(n))
                r.shuffle(order)
                s = "(" + ", ".join("%s => %s" % (b.ixlit(lo + j), es[j].s) for j in order) + ")"

                def f(fr):
                    vals = [e.f(fr) for e in es]
                    return Arr(lo, "to", lo + n - 1, vals) if dsc == "to" else \
                        Arr(lo + n - 1, "downto", lo, vals[::-1])
                return E(s, b, f, n=n)
        l, dr, rr = target.bounds if target is not None else self.lit_bounds(b, n)
        s = "(" + ", ".join(e.s for e in es) + ")"
        if n == 1:
            s = "(%s => %s)" % (b.ixlit(l), es[0].s)
        return E(s, b, lambda fr: Arr(l, dr, rr, [e.f(fr) for e in es]), n=n)

    def rec_expr(self, t, d):
        r = self.r
        ps = self.paths(lambda x: x is t)
        if ps and self.ch(.5):
            return r.choice(ps).expr()
        if d > 0:
            fs = [f for f in self.funcs if f.ret is t and not getattr(f, "hidden", False)]
            if fs and self.ch(.3):
                return self.call_expr(r.choice(fs), d - 1)
        es = [self.expr(ft, d - 1) for _, ft in t.fields]
        if len(es) == 1 or self.ch(.4):
            order = list(range(len(es)))
            r.shuffle(order)
            s = "(" + ", ".join("%s => %s" % (t.fields[j][0], es[j].s) for j in order) + ")"
        else:
            s = "(" + ", ".join(e.s for e in es) + ")"
        return E("%s'%s" % (t.name, s), t,
                 lambda fr: tuple(coerce(ft, e.f(fr)) for (_, ft), e in zip(t.fields, es)))

    # ------------------------------------------------------------ calls
    def call_expr(self, fn, d):
        args = []
        for p in fn.params:
            if p[1].kind == "arr" and p[1].bounds is None:
                a = self.arr_expr(p[1], min(self.r.choice([1, 2, 3, 4]), p[1].ix.hi - p[1].ix.lo + 1), d)
                args.append(a)
            else:
                args.append(self.expr(p[1], d))
        return e_call(fn, args)

    # ------------------------------------------------------------ statements
    def add_var(self, t, writable=True):
        v = self.name("v")
        self.ensure_img(t)
        self.scope.objs.append((LV(v, t), writable))
        return v

    def target(self):
        """A writable path."""
        ps = self.paths(lambda t: True, writable=True)
        lv = self.r.choice(ps).lv()
        if lv.t.kind == "arr" and lv.t.n() > 1 and self.ch(.4):
            # slice target
            n = self.r.randint(1, lv.t.n())
            l, dr, rr = lv.t.bounds
            lo = min(l, rr) + self.r.randint(0, lv.t.n() - n)
            a, z = (lo, lo + n - 1) if dr == "to" else (lo + n - 1, lo)
            return lv.slice(lit(lv.t.ix, a), dr, lit(lv.t.ix, z), lv.t.base.sub("?", a, dr, z))
        return lv

    # ------------------------------------------------------------ statements that may fail
    def near(self, lo, hi, w=1):
        """INTEGER expression within lo-w..hi+w depending on a variable."""
        for _ in range(20):
            e = self.clamp(self.int_expr(INTEGER, 2), lo - w, hi + w, INTEGER)
            if has_var(e.s):
                return e
        return None

    def wide(self):
        """INTEGER expression over the whole range, depending on a variable."""
        ps = self.paths(lambda x: x.kind == "int" and x.base is INTEGER)
        if not ps:
            return None
        e = self.r.choice(ps).expr()
        if not has_var(e.s):
            return None
        if self.ch(.4):
            e = self.binop(INTEGER, "mod", e, lit(INTEGER, self.r.choice([3, 7, 100, 46341, 65536, 2147483647])))
        if self.ch(.3) and self.fits(INTEGER, (e.iv[0] - 2147483645, e.iv[1] + 2)):
            e = self.binop(INTEGER, "-", e, lit(INTEGER, 2147483645))
        return e

    def int_target(self, pred=lambda t: True):
        ps = self.paths(lambda t: t.kind == "int" and t.base is INTEGER and pred(t), writable=True)
        return self.r.choice(ps).lv() if ps else None

    def sub_marks(self):
        return [t for t in self.ints if t.base is INTEGER and t is not INTEGER and
                (t.lo > -2000000000 or t.hi < 2000000000)]

    def unsafe_stmt(self):
        for _ in range(8):
            st = self._unsafe(self.r.choice(["range", "range", "range", "index", "lindex", "over", "over", "neg", "div",
                                             "negexp", "slice", "param", "param", "val", "succ", "conv",
                                             "conv", "realconv", "length", "logic"]))
            if st:
                kind, lv, s = st
                self.utag += 1
                s = s_tag("U%d%s" % (self.utag, kind), s)
                if lv is not None and self.print_some.__name__ == "print_some":
                    self.ensure_img(lv.t)
                    s = s_seq([s, s_print("un %s=" % lv.s.replace('"', ""), lv.expr())])
                return s
        return None

    def _unsafe(self, k):
        r = self.r
        if k == "range":
            lv = self.int_target(lambda t: t.lo - 2 > I32[0] and t.hi + 2 < I32[1])
            e = lv and self.near(lv.t.lo, lv.t.hi, r.choice([1, 2, 2, 50 if lv.t.hi < 2000000000 and lv.t.lo > -2000000000 else 1]))
            return e and (k, lv, s_assign(lv, e))
        if k in ("index", "lindex"):
            ps = self.paths(lambda t: t.kind == "arr" and t.ix.kind == "int" and t.ix.base is INTEGER and
                            t.n() > 0 and (k == "lindex" or t.elem.is_scalar()), writable=k == "lindex")
            if not ps:
                return None
            a = r.choice(ps).lv()
            l, _, rr = a.t.bounds
            lo, hi = min(l, rr), max(l, rr)
            if lo - 1 < I32[0] or hi + 1 > I32[1]:
                return None
            ie = self.near(lo, hi)
            if ie is None:
                return None
            el = a.elem(ie)
            if k == "lindex":
                return k, None, s_assign(el, self.expr(el.t, 1))
            if el.t.kind == "int" and el.t.base is INTEGER:
                lv = self.int_target(lambda t: t.lo <= el.t.lo and el.t.hi <= t.hi)
            else:
                ls = self.paths(lambda t: t is el.t, writable=True)
                lv = ls and r.choice(ls).lv()
            return lv and (k, lv, s_assign(lv, el.expr()))
        if k == "over":
            lv = self.int_target(lambda t: t is INTEGER)
            a, b = self.wide(), self.wide()
            if not (lv and a and b):
                return None
            if self.ch(.3):
                b = lit(INTEGER, r.choice([1, 2, 3, 65536, 2147483647, -1, -2147483647]))
            if self.ch(.5):
                a, b = b, a
            op = r.choice("+-*")
            return k, lv, s_assign(lv, self.binop(INTEGER, op, a, b))
        if k == "neg":
            lv = self.int_target(lambda t: t is INTEGER)
            a = self.wide()
            if not (lv and a):
                return None
            def f(fr):
                v = -a.f(fr)
                if v > I32[1]:
                    raise VErr("overflow")
                return v
            return k, lv, s_assign(lv, E("(-%s)" % a.s, INTEGER, f, I32))
        if k == "div":
            lv = self.int_target(lambda t: t is INTEGER)
            a = self.wide()
            b = self.near(1, r.choice([1, 2, 5]))
            if not (lv and a and b):
                return None
            if b.iv[0] < 0:
                return None
            return k, lv, s_assign(lv, self.binop(INTEGER, r.choice(["/", "mod", "rem"]), a, b))
        if k == "negexp":
            lv = self.int_target(lambda t: t is INTEGER)
            a = self.small(self.int_expr(INTEGER, 2), r.choice([2, 5, 40]))
            b = self.near(0, 4)
            if not (lv and b and has_var(a.s)):
                return None
            return k, lv, s_assign(lv, self.binop(INTEGER, "**", a, b))
        if k in ("length", "slice", "logic"):
            ps = self.paths(lambda t: t.kind == "arr" and t.ix.kind == "int" and t.ix.base is INTEGER and
                            t.n() > 0 and abs(t.bounds[0]) < 1 << 30 and
                            (k != "logic" or t.base is BIT_VECTOR), writable=True)
            if not ps:
                return None
            a = r.choice(ps).lv()
            qs = [p for p in ps if p.t.base is a.t.base]
            b = r.choice(qs).lv()

            def dyn(x, w):
                l, d, rr = x.t.bounds
                lo, hi = min(l, rr), max(l, rr)
                e1 = self.near(lo, hi, 0)
                e2 = self.near(lo, hi, w)
                if not (e1 and e2):
                    return None
                # an ascending null slice may have any bounds
                return x.slice(e1, d, e2, x.t.base.sub("?", *x.t.bounds))
            if k == "slice":
                sa = dyn(a, 1)
                # the same bounds on both sides
                if sa is None:
                    return None
                return k, a, s_assign_dyn(sa, sa.expr())
            sa, sb = dyn(a, 0), dyn(b, 0)
            if sa is None or sb is None:
                return None
            if k == "length":
                return k, a, s_assign_dyn(sa, sb.expr())
            op = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            def f(fr):
                x, y = sa.get(fr), sb.get(fr)
                if len(x.v) != len(y.v):
                    raise VErr("loglen")
                return Arr(1, "to", len(x.v), [LOGIC[op](p, q) for p, q in zip(x.v, y.v)])
            return k, a, s_assign_dyn(sa, E("(%s %s %s)" % (sa.s, op, sb.s), a.t, f))
        if k == "param":
            if not self.sub_marks():
                return None
            t = r.choice(self.sub_marks())
            lv = self.int_target(lambda x: x is INTEGER)
            if t.lo - 1 < I32[0] or t.hi + 1 > I32[1]:
                return None
            e = self.near(t.lo, t.hi, 1)
            if not (lv and e):
                return None
            fn = self.ident_func(t)
            c = e_call(fn, [e])
            return k, lv, s_assign(lv, c)
        if k in ("val", "succ"):
            ts = [t for t in self.enums if t.base is t and len(t.lits) > 1]
            t = r.choice(ts)
            ls = self.paths(lambda x: x is t, writable=True)
            if not ls:
                return None
            lv = r.choice(ls).lv()
            n = len(t.lits) - 1
            if k == "val":
                e = self.near(0, n, 1)
                if e is None:
                    return None
                def f(fr):
                    return t.check(e.f(fr))
                return k, lv, s_assign(lv, E("%s'val(%s)" % (t.name, e.s), t, f))
            x = r.choice(ls).expr()
            if not has_var(x.s):
                return None
            at, dl = r.choice([("succ", 1), ("pred", -1), ("rightof", 1), ("leftof", -1)])
            def f(fr):
                return t.check(x.f(fr) + dl)
            return k, lv, s_assign(lv, E("%s'%s(%s)" % (t.name, at, x.s), t, f))
        if k == "conv":
            ts = [t for t in self.ints if t.base is t and t is not INTEGER and t.lo - 1 > I32[0] and t.hi + 1 < I32[1]]
            if not ts:
                return None
            t = r.choice(ts)
            ls = self.paths(lambda x: x is t, writable=True)
            e = self.near(t.lo, t.hi, r.choice([1, 3]))
            if not (ls and e):
                return None
            lv = r.choice(ls).lv()
            return k, lv, s_assign(lv, E("%s(%s)" % (t.name, e.s), t, lambda fr: t.check(e.f(fr))))
        if k == "realconv":
            lv = self.int_target(lambda t: t is INTEGER)
            e = self.wide()
            if not (lv and e):
                return None
            m = r.choice([1.0, 2.0, 0.5, 3.0])
            ad = r.choice([0.25, 10.25, -10.25])
            def f(fr):
                v = e.f(fr) * m + ad
                import math
                i = math.floor(abs(v) + .5) * (1 if v >= 0 else -1)
                if not I32[0] <= i <= I32[1]:
                    raise VErr("range", None)
                return i
            return k, lv, s_assign(lv, E("integer(real(%s) * %r + (%r))" % (e.s, m, ad), INTEGER, f, I32))
        return None

    def ident_func(self, t):
        """function with a parameter of subtype t: the actual is checked."""
        if t.name not in self.idf:
            n = self.name("uf")
            f = Func(n, [("x", t, "in")], INTEGER, [], [s_return(LV("x", t).expr())])
            self.decls += f.lines()
            self.idf[t.name] = f
        return self.idf[t.name]

    def stmt(self, d):
        r = self.r
        # nvc may drop a call of a pure function whose result is not used
        if not getattr(self, "noprint", False) and self.ch(self.feats.get("unsafe", 0)):
            st = self.unsafe_stmt()
            if st is not None:
                return st
        k = r.random()
        if d <= 0 or k < .5:
            if not self.paths(lambda t: True, writable=True):
                return s_null()
            lv = self.target()
            st = s_assign(lv, self.expr(lv.t, self.feats.get("edepth", 3)))
            if self.feats.get("trace") and self.print_some.__name__ == "print_some":
                self.ensure_img(lv.t)
                st = s_seq([st, s_print("tr %s=" % lv.s.replace('"', ""), lv.expr())])
            return st
        if k < .62:
            return self.print_some()
        if k < .74:
            arms = [(self.bool_expr(2), self.stmts(r.randint(1, 3), d - 1))
                    for _ in range(r.choice([1, 1, 2, 3]))]
            return s_if(arms, self.stmts(r.randint(1, 2), d - 1) if self.ch(.6) else None)
        if k < .86:
            return self.for_loop(d)
        if k < .93:
            return self.case_stmt(d)
        if self.procs:
            return self.call_stmt(r.choice(self.procs))
        return self.print_some()

    def stmts(self, n, d):
        return [self.stmt(d) for _ in range(n)]

    def print_some(self):
        ps = self.paths(lambda t: True)
        lv = self.r.choice(ps).lv()
        self.ensure_img(lv.t)
        return s_print(self.name("t") + "=", lv.expr())

    def for_loop(self, d):
        r = self.r
        v = self.name("i")
        en = [e for e in self.enums if 1 < len(e.lits) <= 5 and e.base is e]
        label = self.name("lp") if self.ch(.5) else None
        if en and self.ch(.2):
            t = r.choice(en)
            a, z = sorted([r.randrange(len(t.lits)), r.randrange(len(t.lits))])
            dr = r.choice(["to", "downto"])
            if dr == "downto":
                a, z = z, a
            le, he = lit(t, a), lit(t, z)
            sc_t = EnumTy(t.name, t.lits, t)
            sc_t.lo, sc_t.hi = min(a, z), max(a, z)
        else:
            t = INTEGER
            a = r.randint(-3, 5)
            n = r.choice([0, 1, 2, 3, 4])
            dr = r.choice(["to", "downto"])
            if self.ch(.3):
                le = lit(t, a)
                m = self.small(self.int_expr(t, 1), n + 1)
                if dr == "to":
                    he = self.binop(t, "+", m, lit(t, a - 1))
                    sc = (a, a + n)
                else:
                    le, he = self.binop(t, "+", m, lit(t, a - 1)), lit(t, a)
                    sc = (a, a + n)
            else:
                z = a + n - 1
                le, he = (lit(t, a), lit(t, z)) if dr == "to" else (lit(t, z), lit(t, a))
                sc = (min(a, z), max(a, z))
            sc_t = IntTy("integer", sc[0], sc[1], INTEGER)
        self.scope = Scope(self.scope)
        self.scope.objs.append((LV(v, sc_t), False))
        self.loops.append(label)
        body = self.stmts(r.randint(1, 3), d - 1)
        if self.ch(.35):
            tl = r.choice([l for l in self.loops if l] + [None])
            body.insert(r.randint(0, len(body)),
                        s_jump(r.choice(["exit", "next"]), tl, self.bool_expr(2)))
        self.loops.pop()
        self.scope = self.scope.up
        return s_for(v, t, le, dr, he, body, label)

    def case_stmt(self, d):
        r = self.r
        k = r.random()
        if k < .5:
            sel = self.int_expr(INTEGER, 2)
            n = r.choice([3, 8, 50, 1000])
            if sel.iv[0] < 0 or sel.iv[1] >= n:
                sel = self.small(sel, n)
            sel = self.qual(sel)
            vals = list(range(0, n))
            t = INTEGER
            used, arms = set(), []
            for _ in range(r.randint(1, 4)):
                vs, txt = set(), []
                for _ in range(r.randint(1, 2)):
                    a = r.randrange(n)
                    z = a + r.choice([0, 0, 1, 2, 5])
                    rng = set(range(a, z + 1))
                    if rng & (used | vs):
                        continue
                    vs |= rng
                    txt.append(str(a) if a == z else r.choice(
                        ["%d to %d" % (a, z), "%d downto %d" % (z, a)]))
                if vs:
                    used |= vs
                    arms.append((" | ".join(txt), vs, self.stmts(r.randint(1, 2), d - 1)))
            arms.append(("others", None, self.stmts(1, d - 1)))
            return s_case(sel, arms)
        if k < .8:
            t = r.choice([e for e in self.enums if e.base is e])
            sel = self.qual(self.enum_expr(t, 2))
            vs = list(range(len(t.lits)))
            r.shuffle(vs)
            arms = []
            while vs and len(arms) < 3:
                m = r.randint(1, len(vs))
                c, vs = vs[:m], vs[m:]
                arms.append((" | ".join(t.lit(x) for x in c), set(c), self.stmts(1, d - 1)))
            if vs or self.ch(.3):
                arms.append(("others", None, self.stmts(1, d - 1)))
            return s_case(sel, arms)
        ps = self.paths(lambda t: t.kind == "arr" and t.chars and 1 <= t.n() <= 5)
        if not ps:
            return self.print_some()
        p = r.choice(ps).lv()
        t = p.t
        used, arms = set(), []
        for _ in range(r.randint(1, 6)):
            v = tuple(r.randint(t.elem.lo, t.elem.hi) for _ in range(t.n()))
            if v in used:
                continue
            used.add(v)
            arms.append((ArrTy.lit(t, Arr(*t.bounds, list(v))), {v}, self.stmts(1, d - 1)))
        arms.append(("others", None, self.stmts(1, d - 1)))
        return s_case(p.expr(), arms)

    def call_stmt(self, pr):
        acts = []
        used = set()
        for p in pr.params:
            if p[2] == "in":
                acts.append(None)
            else:
                ps = [x for x in self.paths(lambda t: t is p[1] or (t.kind == "int" and t is p[1]),
                                            writable=True) if x.root not in used]
                if not ps:
                    return self.print_some()
                x = self.r.choice(ps).lv()
                used.add(x.root)
                acts.append(x)
        # a composite in actual must not overlap an out actual: both may be passed by reference
        for i, p in enumerate(pr.params):
            if p[2] == "in":
                if p[1].kind in ("arr", "rec"):
                    save = self.scope
                    sc = self.scope = Scope()
                    sc.objs = [o for o in save.all() if o[0].root not in used]
                    acts[i] = self.expr(p[1], 2)
                    self.scope = save
                else:
                    acts[i] = self.expr(p[1], 2)
        return s_call(pr, acts)

    # ------------------------------------------------------------ subprograms
    def new_func(self, ret=None, size=3):
        r = self.r
        ret = ret or self.any_type()
        params = []
        sc = Scope()
        for _ in range(r.randint(0, 3)):
            t = self.any_type()
            n = self.name("a")
            params.append((n, t, "in"))
            sc.objs.append((LV(n, t), False))
        save, self.scope = self.scope, sc
        lsave, self.loops = self.loops, []
        decls = []
        for _ in range(r.randint(1, 3)):
            t = self.any_type()
            i = self.expr(t, 2)
            n = self.name("w")
            decls.append((n, t, i))
            sc.objs.append((LV(n, t), True))
        psave, self.procs = self.procs, []
        self.noprint = True
        body = [self.stmt_np(2) for _ in range(size)]
        self.noprint = False
        if self.ch(.4):
            body.append(s_if([(self.bool_expr(2), [s_return(self.expr(ret, 2))])], None))
        body.append(s_return(self.expr(ret, 2)))
        self.procs = psave
        self.scope, self.loops = save, lsave
        f = Func(self.name("fn"), params, ret, decls, body)
        self.decls += f.lines()
        self.funcs.append(f)
        return f

    def stmt_np(self, d):
        """A statement that prints nothing (for pure functions)."""
        save = self.print_some
        self.print_some = lambda: self._assign(d)
        try:
            return self.stmt(d)
        finally:
            self.print_some = save

    def _assign(self, d):
        if not self.paths(lambda t: True, writable=True):
            return s_null()
        lv = self.target()
        return s_assign(lv, self.expr(lv.t, 2))

    def new_proc(self, size=3):
        r = self.r
        params = []
        sc = Scope()
        for _ in range(r.randint(1, 3)):
            mode = r.choice(["in", "out", "inout", "inout"])
            # only named types can be matched again at the call
            t = r.choice([x[0].t for x in self.scope.objs if x[1]] or [INTEGER])
            n = self.name("q")
            if mode != "in" and t.kind == "arr":
                pass
            params.append((n, t, mode))
            sc.objs.append((LV(n, t), mode != "in"))
        save, self.scope = self.scope, sc
        lsave, self.loops = self.loops, []
        decls = []
        body = []
        # an out parameter must be given a value before it is read
        for n, t, mode in params:
            if mode == "out":
                scx = self.scope
                self.scope = Scope()
                self.scope.objs = [o for o in sc.objs if o[0].root != n and
                                   next(p for p in params if p[0] == o[0].root)[2] != "out"]
                body.append(s_assign(LV(n, t), self.expr(t, 2)))
                self.scope = scx
        for _ in range(r.randint(0, 2)):
            t = self.any_type()
            nm = self.name("w")
            scx = self.scope
            self.scope = Scope()
            self.scope.objs = [o for o in sc.objs if any(p[0] == o[0].root and p[2] != "out" for p in params)]
            decls.append((nm, t, self.expr(t, 1)))
            self.scope = scx
        for nm, t, i in decls:
            sc.objs.append((LV(nm, t), True))
        psave, self.procs = self.procs, []
        for _ in range(size):
            body.append(self.stmt(2))
        if self.ch(.3):
            body.insert(self.r.randint(sum(p[2] == "out" for p in params), len(body)),
                        s_if([(self.bool_expr(1), [s_return()])], None))
        self.procs = psave
        self.scope, self.loops = save, lsave
        f = Func(self.name("pr"), params, None, decls, body)
        self.decls += f.lines()
        self.procs.append(f)
        return f


LOGIC = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
         "nand": lambda a, b: 1 - (a & b), "nor": lambda a, b: 1 - (a | b),
         "xnor": lambda a, b: 1 - (a ^ b)}


def _res_bounds(a):
    # STD.STANDARD's logical operators return bounds 1 to n
    return (1, "to", len(a.v))


def _map1(a):
    return Arr(a.l, a.d, a.r, [1 - x for x in a.v])


def _map2(fn, a, b):
    return Arr(a.l, a.d, a.r, [fn(x, y) for x, y in zip(a.v, b.v)])


def _maps(fn, a, s):
    return Arr(a.l, a.d, a.r, [fn(x, s) for x in a.v])


def _shift(op, a, k):
    v = list(a.v)
    n = len(v)
    if n == 0 or k == 0:
        return Arr(a.l, a.d, a.r, v)
    if k < 0:
        op = {"sll": "srl", "srl": "sll", "sla": "sra", "sra": "sla", "rol": "ror", "ror": "rol"}[op]
        k = -k
    for _ in range(min(k, n) if op in ("sll", "srl", "sla", "sra") else k % n):
        if op == "sll":
            v = v[1:] + [0]
        elif op == "srl":
            v = [0] + v[:-1]
        elif op == "sla":
            v = v[1:] + [v[-1]]
        elif op == "sra":
            v = [v[0]] + v[:-1]
        elif op == "rol":
            v = v[1:] + v[:1]
        else:
            v = v[-1:] + v[:-1]
    return Arr(a.l, a.d, a.r, v)


# ---------------------------------------------------------------- whole programs
_VAR = re.compile(r"\b(?:v|q|w|a|i)\d+\b(?!')")


def has_var(s):
    """The text mentions an object whose value is not known before the simulation."""
    return bool(_VAR.search(re.sub(r"[\w.]+'\w+", "", s)))


def s_assign_dyn(lv, e):
    """Assignment to a slice whose bounds are computed."""
    def run(fr):
        rp = lv.resolve(fr)
        old = path_get(fr.get(lv.root), rp)
        val = e.f(fr)
        if len(val.v) != len(old.v):
            raise VErr("length")
        for x in val.v:
            old_t.check(x)
        fr.set(lv.root, path_set(fr.get(lv.root), rp, val))
        return
        yield
    old_t = lv.t.elem
    return S("%s := %s;" % (lv.s, e.s), run)


class Program:
    """One architecture with one process; expected output computed by the reference."""
    def __init__(self, rng, ntypes=4, nvars=7, nstmts=25, nfuncs=3, nprocs=2, depth=3, feats=None,
                 setup=None, mix=None):
        g = self.g = Gen(rng, feats=feats)
        mix = mix or {"int": 25, "sub": 15, "enum": 20, "arr": 25, "rec": 15}
        for _ in range(ntypes):
            k = rng.choices(list(mix), list(mix.values()))[0]
            {"int": g.new_int, "sub": g.new_intsub, "enum": g.new_enum, "arr": g.new_arr,
             "rec": g.new_rec}[k]()
        if setup:
            setup(g)
        for _ in range(nfuncs):
            g.new_func()
        vars_ = []
        for _ in range(nvars):
            t = g.any_type()
            i = None
            if rng.random() < .6:
                i = lit(t, g.const_val(t)) if t.kind != "arr" or t.n() > 0 else None
            n = g.add_var(t)
            if t.kind == "phys" or t.kind == "real" or g._may(t, lambda x: x.kind in ("phys", "real"), 4):
                # keep magnitudes bounded
                i = lit(t, g.const_val(t))
            vars_.append((n, t, i))
        for _ in range(nprocs):
            g.new_proc()
        body = g.stmts(nstmts, depth)
        for n, t, i in vars_:
            body.append(s_print("end %s=" % n, ref(n, t)))
        self.vars, self.body = vars_, s_seq(body)

    def text(self, ent="top"):
        g = self.g
        out = ["use std.textio.all;", "entity %s is end entity;" % ent,
               "architecture a of %s is" % ent]
        out += ind(PRINT_PROC) + ind(g.decls) + ["begin", "  process"]
        for n, t, i in self.vars:
            out.append("    variable %s : %s%s;" % (n, t.name, " := " + i.s if i else ""))
        out += ["  begin"] + ind(self.body.lines, 2) + ["    p(\"done\");", "    wait;", "  end process;",
                                                      "end architecture;"]
        return "\n".join(out) + "\n"

    def reference(self):
        """(printed lines, the error that ends the run or None)"""
        rt = RT()
        f = Frame(rt=rt)
        f2 = Frame(f)
        for n, t, i in self.vars:
            f2.v[n] = coerce(t, i.f(f)) if i else t.default()
        try:
            drive(self.body.run(f2))
        except VErr as e:
            return rt.lines, e
        rt.out("done")
        return rt.lines, None

    def expected(self):
        lines, err = self.reference()
        if err:
            raise err
        return lines
