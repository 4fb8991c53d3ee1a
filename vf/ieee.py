"""Random calls of the IEEE (and Synopsys) packages with a reference in Python.

A Val is a typed VHDL expression with the bits it must have (leftmost first) or a scalar value."""

NINE = "UX01ZWLH-"
X01 = dict(zip(NINE, "XX01XX01X"))
X01Z = dict(zip(NINE, "XX01ZX01X"))
UX01 = dict(zip(NINE, "UX01XX01X"))
BIT = dict(zip(NINE, "000100010"))
ZERO1 = dict(zip(NINE, "??01??01?"))


def _and(a, b):
    a, b = UX01[a], UX01[b]
    if a == "0" or b == "0":
        return "0"
    if "U" in (a, b):
        return "U"
    return "X" if "X" in (a, b) else "1"


def _or(a, b):
    a, b = UX01[a], UX01[b]
    if a == "1" or b == "1":
        return "1"
    if "U" in (a, b):
        return "U"
    return "X" if "X" in (a, b) else "0"


def _xor(a, b):
    a, b = UX01[a], UX01[b]
    if "U" in (a, b):
        return "U"
    return "X" if "X" in (a, b) else ("1" if a != b else "0")


def _not(a):
    return {"0": "1", "1": "0"}.get(UX01[a], UX01[a])


LOGIC = {"and": _and, "or": _or, "xor": _xor, "nand": lambda a, b: _not(_and(a, b)),
         "nor": lambda a, b: _not(_or(a, b)), "xnor": lambda a, b: _not(_xor(a, b))}
_R = ["UUUUUUUUU", "UXXXXXXXX", "UX0X0000X", "UXX11111X", "UX01ZWLHX", "UX01WWWWX", "UX01LWLWX", "UX01HWWHX", "UXXXXXXXX"]


def resolve(vs):
    if len(vs) == 1:
        return vs[0]
    r = "Z"
    for v in vs:
        r = _R[NINE.index(r)][NINE.index(v)]
    return r


def std_match1(a, b):
    if "-" in (a, b):
        return True
    a, b = X01[a], X01[b]
    return a == b and a != "X"


class Val:
    def __init__(self, kind, text, v):
        self.kind, self.text, self.v = kind, text, v     # kinds: uns sgn slv sl int bool bv buns bsgn nat


def unum(b):
    return int(b, 2) if b else 0


def snum(b):
    n = unum(b)
    return n - (1 << len(b)) if b and b[0] == "1" else n


def bits(n, w):
    return format(n & ((1 << w) - 1), "0%db" % w) if w else ""


def to01(b):
    """TO_01: None if there is a metavalue."""
    r = "".join(ZERO1.get(c, "?") for c in b)
    return None if "?" in r else r


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Gen:
    def __init__(self, rng, std):
        self.rng, self.std = rng, std
        self.decls, self.stmts, self.exp = [], [], []
        self.k = 0
        self.low = "(-2147483647 - 1)"      # integer has 64 bits in VHDL-2019
        self.meta = rng.choice([0, 0, .1, .3])
        self.bitpk = False     # numeric_bit instead of numeric_std

    # ------------------------------------------------------------ operands
    def width(self):
        r = self.rng
        return r.choice([1, 2, 3, 4, 7, 8, 8, 15, 16, 17, 31, 32, 33, 48, 62, 63, 64, 65, 66, 70, 100, 128, 130,
                         r.randint(1, 40)])

    def rbits(self, w, meta=None):
        r = self.rng
        k = r.random()
        if k < .15:
            b = "0" * w
        elif k < .3:
            b = "1" * w
        elif k < .4:
            b = "1" + "0" * (w - 1)
        elif k < .5:
            b = "0" + "1" * (w - 1) if w else ""
        elif k < .6:
            b = bits(r.randint(0, 5), w)
        else:
            b = "".join(r.choice("01") for _ in range(w))
        m = self.meta if meta is None else meta
        if m and not self.bitpk and r.random() < m + .2:
            k = r.random()
            if k < .4:
                b = "".join({"0": "0L", "1": "1H"}[c][r.random() < .3] for c in b)
            else:
                b = "".join(r.choice(NINE) if r.random() < m else c for c in b)
        return b

    def tname(self, kind):
        return {"uns": "unsigned", "sgn": "signed", "slv": "std_logic_vector", "sulv": "std_ulogic_vector",
                "bv": "bit_vector"}[kind]

    def vec(self, kind, w=None, b=None):
        """A variable, constant, slice of a variable, or qualified literal."""
        r = self.rng
        if b is None:
            b = self.rbits(self.width() if w is None else w)
        w = len(b)
        self.k += 1
        n = "v%d" % self.k
        k = r.random()
        if w == 0:
            t = self.tname(kind)
            return Val(kind, n, b) if not self.decls.append("variable %s : %s(%s);" % (
                n, t, r.choice(["-1 downto 0", "1 to 0", "4 to 3"]))) else None
        off = r.choice([0, 0, 0, 1, 3, 17])
        rg = "%d downto %d" % (off + w - 1, off) if r.random() < .6 else "%d to %d" % (off, off + w - 1)
        if k < .6:
            self.decls.append('variable %s : %s(%s) := "%s";' % (n, self.tname(kind), rg, b))
            return Val(kind, n, b)
        if k < .75:
            self.decls.append('constant %s : %s(%s) := "%s";' % (n, self.tname(kind), rg, b))
            return Val(kind, n, b)
        if k < .95:
            pre, post = self.rbits(r.randint(0, 9), 0), self.rbits(r.randint(0, 9), 0)
            al = pre + b + post
            if r.random() < .5:
                self.decls.append('variable %s : %s(0 to %d) := "%s";' % (n, self.tname(kind), len(al) - 1, al))
                return Val(kind, "%s(%d to %d)" % (n, len(pre), len(pre) + w - 1), b)
            self.decls.append('variable %s : %s(%d downto 0) := "%s";' % (n, self.tname(kind), len(al) - 1, al))
            return Val(kind, "%s(%d downto %d)" % (n, len(post) + w - 1, len(post)), b)
        return Val(kind, '%s\'("%s")' % (self.tname(kind), b), b)

    def int(self, lo=-2147483648, hi=2147483647):
        r = self.rng
        v = r.choice([lo, hi, lo, hi, min(max(0, lo), hi), min(max(1, lo), hi), r.randint(lo, hi), r.randint(lo, hi),
                      min(max(r.randint(-9, 9), lo), hi)])
        if r.random() < .3:
            if v == -2147483648:
                return Val("int", self.low, v)
            return Val("int", str(v) if v >= 0 else "(%d)" % v, v)
        self.k += 1
        n = "v%d" % self.k
        self.decls.append("variable %s : integer := %s;" % (n, self.low if v == -2147483648 else v))
        return Val("int", n, v)

    # ------------------------------------------------------------ operations
    def num(self, kind, depth):
        """An unsigned or signed expression."""
        if depth > 0 and self.rng.random() < .6:
            return self.arith(kind, depth)
        w = None if self.rng.random() < .97 else 0
        return self.vec(kind, w)

    def arith(self, kind, depth=0):
        r = self.rng
        sg = kind == "sgn"
        N = snum if sg else unum
        op = r.choice(["+", "+", "+", "-", "-", "*", "*", "neg", "abs", "resize", "resize", "shl", "shr", "rol", "ror",
                       "/", "rem", "mod", "not", "logic", "logic", "+i", "-i", "i+", "i-", "*i", "/i", "to",
                       "to_01", "max", "sll", "srl", "+l"])
        if op in ("neg", "abs") and not sg:
            op = "+"
        if op == "to":
            w = self.width()
            if sg:
                v = self.int()
                if r.random() < .8 and w < 31:
                    v = self.int(-(1 << (w - 1)), (1 << (w - 1)) - 1)
                return Val(kind, "to_signed(%s, %s)" % (v.text, self.size(w)), bits(v.v, w))
            v = self.int(0)
            if r.random() < .8 and w < 31:
                v = self.int(0, (1 << w) - 1)
            return Val(kind, "to_unsigned(%s, %s)" % (v.text, self.size(w)), bits(v.v, w))
        a = self.num(kind, depth - 1)
        x = to01(a.v)
        if op == "not":
            return Val(kind, "(not %s)" % a.text, "".join(map(_not, a.v)))
        if op == "logic":
            if not a.v:
                return a
            f = r.choice(list(LOGIC))
            b = self.vec(kind, len(a.v))
            v = "".join(LOGIC[f](p, q) for p, q in zip(a.v, b.v))
            return Val(kind, "(%s %s %s)" % (a.text, f, b.text), v)
        if op == "resize":
            w = self.width()
            if r.random() < .2:
                w = len(a.v) + r.choice([-1, 0, 1])
                w = max(w, 1)
            if not a.v:
                v = "0" * w
            elif sg:
                v = a.v[0] * (w - len(a.v)) + a.v if w > len(a.v) else a.v[0] + (a.v[len(a.v) - w + 1:] if w > 1 else "")
            else:
                v = "0" * (w - len(a.v)) + a.v if w > len(a.v) else a.v[len(a.v) - w:]
            return Val(kind, "resize(%s, %s)" % (a.text, self.size(w)), v)
        if op == "to_01":
            d = r.choice("01X") if not self.bitpk else r.choice("01")
            if not a.v:
                return a
            if self.bitpk:
                return a
            v = x if x is not None else d * len(a.v)
            return Val(kind, "to_01(%s, '%s')" % (a.text, d), v)
        if op in ("shl", "shr", "rol", "ror", "sll", "srl"):
            n = self.int(0, max(1, len(a.v) * 2 + 2))
            m = n.v
            L = len(a.v)
            f = {"shl": "shift_left", "shr": "shift_right", "rol": "rotate_left", "ror": "rotate_right"}.get(op)
            t = "%s(%s, %s)" % (f, a.text, n.text) if f else "(%s %s %s)" % (a.text, op, n.text)
            if L == 0:
                return Val(kind, t, "")
            if op in ("shl", "sll"):
                v = (a.v + "0" * m)[m:m + L] if m < L else "0" * L
            elif op in ("shr", "srl"):
                fill = a.v[0] if sg and op == "shr" else "0"
                v = (fill * m + a.v)[:L]
            else:
                m %= L
                v = a.v[m:] + a.v[:m] if op == "rol" else a.v[L - m:] + a.v[:L - m]
            return Val(kind, t, v)
        if op == "neg":
            if x is None or not a.v:
                return Val(kind, "(- %s)" % a.text, "X" * len(a.v))
            return Val(kind, "(- %s)" % a.text, bits(-N(x), len(a.v)))
        if op == "abs":
            if x is None or not a.v:
                return Val(kind, "(abs(%s))" % a.text, "X" * len(a.v))
            return Val(kind, "(abs(%s))" % a.text, bits(abs(N(x)), len(a.v)))
        if op == "+l":
            if self.std < "2008" or not a.v:
                op = "+"
            else:
                bv = r.choice("01") if self.bitpk or r.random() < .6 else r.choice(NINE)
                lit = ("bit'('%s')" if self.bitpk else "std_ulogic'('%s')") % bv
                f = r.choice("+-")
                t = "(%s %s %s)" % (a.text, f, lit)
                y = ZERO1.get(bv, "?")
                L = len(a.v)
                if not L:
                    return Val(kind, t, "")
                # L + XXR where XXR'right is the bit: an unsigned one
                if x is None or y == "?":
                    return Val(kind, t, "X" * L)
                if sg:
                    # signed: the bit is the rightmost of a vector of zeros of the same length
                    y = snum("0" * (L - 1) + y)
                return Val(kind, t, bits(N(x) + int(y) * (1 if f == "+" else -1), L))
        if op in ("+i", "-i", "i+", "i-", "*i", "/i"):
            L = len(a.v)
            i = self.int() if sg else self.int(0)
            if L < 31:
                # larger numbers are truncated with a warning
                if sg:
                    i = self.int(-(1 << max(L - 1, 0)), max(0, (1 << max(L - 1, 0)) - 1))
                else:
                    i = self.int(0, (1 << L) - 1)
            o = op.strip("i")
            t = "(%s %s %s)" % ((a.text, o, i.text) if op[1] == "i" else (i.text, o, a.text))
            if L == 0:
                return a
            if o == "/":
                if i.v == 0:
                    return a
                if not (-(1 << (L - 1)) <= i.v < (1 << (L - 1)) if sg else i.v < (1 << L)):
                    return a
                if sg and i.v == -(1 << (L - 1)):
                    return a
                if x is None:
                    return Val(kind, t, "X" * L)
                return Val(kind, t, bits(tdiv(N(x), i.v), L))
            if not (-(1 << (L - 1)) <= i.v < (1 << (L - 1)) if sg else i.v < (1 << L)):
                return a
            W = 2 * L if o == "*" else L
            if x is None:
                return Val(kind, t, "X" * W)
            p, q = (N(x), i.v) if op[1] == "i" else (i.v, N(x))
            return Val(kind, t, bits({"+": p + q, "-": p - q, "*": p * q}[o], W))
        b = self.num(kind, depth - 1)
        if len(a.v) + len(b.v) > 200:
            b = self.vec(kind, r.randint(1, 9))
        y = to01(b.v)
        if op == "max":
            if self.std < "2008" or not a.v or not b.v or x is None or y is None:
                op = "+"
            else:
                f = r.choice(["maximum", "minimum"])
                L = max(len(a.v), len(b.v))
                v = (max if f[1] == "a" else min)(N(x), N(y))
                return Val(kind, "%s(%s, %s)" % (f, a.text, b.text), bits(v, L))
        t = "(%s %s %s)" % (a.text, op, b.text)
        if not a.v or not b.v:
            return Val(kind, t, "")
        if op in "+-":
            W = max(len(a.v), len(b.v))
            if x is None or y is None:
                return Val(kind, t, "X" * W)
            return Val(kind, t, bits(N(x) + N(y) if op == "+" else N(x) - N(y), W))
        if op == "*":
            W = len(a.v) + len(b.v)
            if x is None or y is None:
                return Val(kind, t, "X" * W)
            return Val(kind, t, bits(N(x) * N(y), W))
        W = len(a.v) if op == "/" else len(b.v)
        if x is None or y is None:
            return Val(kind, t, "X" * W)
        if N(y) == 0 or x != a.v or y != b.v:
            return a        # the standard's own source tests the sign bit for '1' only
        q = tdiv(N(x), N(y))
        rem = N(x) - q * N(y)
        if op == "/":
            return Val(kind, t, bits(q, W))
        if op == "rem":
            return Val(kind, t, bits(rem, W))
        return Val(kind, t, bits(N(x) % N(y), W))

    def size(self, w):
        if self.rng.random() < .5:
            return str(w)
        self.k += 1
        self.decls.append("variable v%d : natural := %d;" % (self.k, w))
        return "v%d" % self.k

    def cond(self):
        """A comparison of numbers."""
        r = self.rng
        kind = r.choice(["uns", "sgn"])
        N = snum if kind == "sgn" else unum
        op = r.choice(["=", "/=", "<", "<=", ">", ">="])
        a = self.num(kind, 1)
        x = to01(a.v)
        k = r.random()
        F = {"=": lambda p, q: p == q, "/=": lambda p, q: p != q, "<": lambda p, q: p < q, "<=": lambda p, q: p <= q,
             ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}[op]
        if k < .3:
            i = self.int() if kind == "sgn" else self.int(0)
            if r.random() < .3 and x is not None and -2147483648 <= N(x) <= 2147483647:
                i = Val("int", "(%d)" % N(x) if N(x) > -2147483648 else self.low, N(x))
            t = "(%s %s %s)" % ((a.text, op, i.text))
            p, q = (N(x) if x is not None else None), i.v
            if r.random() < .5:
                t = "(%s %s %s)" % ((i.text, op, a.text))
                p, q = q, p
            if not a.v or x is None:
                return Val("bool", t, op == "/=")
            return Val("bool", t, F(p, q))
        b = self.num(kind, 1)
        if r.random() < .25 and a.v:
            # equal or nearly equal
            bb = a.v
            if r.random() < .5:
                j = r.randrange(len(bb))
                bb = bb[:j] + {"0": "1", "1": "0"}.get(bb[j], bb[j]) + bb[j + 1:]
            if r.random() < .3:
                bb = (bb[0] if kind == "sgn" else "0") * r.randint(1, 5) + bb
            b = self.vec(kind, b=bb)
        y = to01(b.v)
        t = "(%s %s %s)" % (a.text, op, b.text)
        if not a.v or not b.v or x is None or y is None:
            return Val("bool", t, op == "/=")
        return Val("bool", t, F(N(x), N(y)))

    def toint(self):
        r = self.rng
        kind = r.choice(["uns", "sgn"])
        w = r.randint(1, 31 if kind == "uns" else 32)
        a = self.vec(kind, w)
        x = to01(a.v)
        return Val("int", "to_integer(%s)" % a.text, 0 if x is None else (snum if kind == "sgn" else unum)(x))

    def logic(self, depth=0):
        """std_logic_vector operations."""
        r = self.rng
        kind = r.choice(["slv", "sulv"])
        a = self.vec(kind) if depth <= 0 or r.random() < .4 else self.logic(depth - 1)
        kind = a.kind
        op = r.choice(["not"] + list(LOGIC) * 2 + ["to_x01", "to_x01z", "to_ux01", "to_bv", "red", "scal", "shift", "to_01"])
        if op == "not":
            return Val(kind, "(not %s)" % a.text, "".join(map(_not, a.v)))
        if op in LOGIC:
            b = self.vec(kind, len(a.v))
            return Val(kind, "(%s %s %s)" % (a.text, op, b.text), "".join(LOGIC[op](p, q) for p, q in zip(a.v, b.v)))
        if op in ("to_x01", "to_x01z", "to_ux01"):
            T = {"to_x01": X01, "to_x01z": X01Z, "to_ux01": UX01}[op]
            return Val(kind, "%s(%s)" % (op, a.text), "".join(T[c] for c in a.v))
        if op == "to_bv":
            v = "".join(BIT[c] for c in a.v)
            f = "to_stdlogicvector" if kind == "slv" else "to_stdulogicvector"
            return Val(kind, "%s(to_bitvector(%s))" % (f, a.text), v)
        if op == "scal" and self.std >= "2008":
            f = r.choice(list(LOGIC))
            s = r.choice(NINE)
            v = "".join(LOGIC[f](p, s) for p in a.v)
            if r.random() < .5:
                return Val(kind, "(%s %s std_ulogic'('%s'))" % (a.text, f, s), v)
            return Val(kind, "(std_ulogic'('%s') %s %s)" % (s, f, a.text), v)
        if op == "shift" and self.std >= "2008":
            n = self.int(-len(a.v) - 2, len(a.v) + 2)
            f = r.choice(["sll", "srl", "rol", "ror"])
            L, m = len(a.v), n.v
            if L == 0:
                return a
            g = f
            if m < 0:
                g, m = {"sll": "srl", "srl": "sll", "rol": "ror", "ror": "rol"}[f], -m
            if g == "sll":
                v = (a.v + "0" * m)[m:m + L] if m < L else "0" * L
            elif g == "srl":
                v = ("0" * m + a.v)[:L]
            else:
                m %= L
                v = a.v[m:] + a.v[:m] if g == "rol" else a.v[L - m:] + a.v[:L - m]
            return Val(kind, "(%s %s %s)" % (a.text, f, n.text), v)
        return a

    def misc(self):
        r = self.rng
        op = r.choice(["eq", "eq", "eq", "is_x", "match", "red", "uminmax", "resolve", "conv", "find"])
        if op == "eq":
            kind = r.choice(["slv", "sulv", "bv"])
            b = self.rbits(self.width(), 0 if kind == "bv" else .3)
            if kind == "bv":
                b = "".join(BIT[c] for c in b)
            x = self.vec(kind, b=b)
            if r.random() < .6 and b:
                j = r.randrange(len(b))
                b = b[:j] + r.choice("01" if kind == "bv" else NINE) + b[j + 1:]
            if r.random() < .1 and b:
                b = b[1:]
            y = self.vec(kind, b=b)
            o = r.choice(["=", "/="])
            return Val("bool", "(%s %s %s)" % (x.text, o, y.text), (x.v == y.v) == (o == "="))
        if op == "is_x":
            a = self.vec(r.choice(["slv", "sulv"]), b=self.rbits(self.width(), .05))
            return Val("bool", "is_x(%s)" % a.text, any(c in "UXZW-" for c in a.v))
        if op == "match":
            kind = r.choice(["uns", "sgn", "slv", "sulv"])
            a = self.vec(kind, b=self.rbits(self.width(), .2))
            bb = "".join("-" if r.random() < .2 else c for c in a.v)
            if r.random() < .3 and bb:
                j = r.randrange(len(bb))
                bb = bb[:j] + r.choice(NINE) + bb[j + 1:]
            b = self.vec(kind, b=bb)
            return Val("bool", "std_match(%s, %s)" % (a.text, b.text),
                       all(std_match1(p, q) for p, q in zip(a.v, b.v)) and len(a.v) > 0)
        if op == "red" and self.std >= "2008":
            kind = r.choice(["uns", "sgn", "slv", "sulv"])
            a = self.vec(kind)
            f = r.choice(list(LOGIC))
            base = {"nand": "and", "nor": "or", "xnor": "xor"}.get(f, f)
            v = {"and": "1", "or": "0", "xor": "0"}[base]
            for c in a.v:
                v = LOGIC[base](v, c)
            if base != f:
                v = _not(v)
            return Val("sl", "(%s %s)" % (f, a.text), v)
        if op == "conv":
            a = self.vec(r.choice(["uns", "sgn"]))
            return Val("slv", "std_logic_vector(%s)" % a.text, a.v)
        if op == "find" and self.std >= "2008":
            kind = r.choice(["uns", "sgn"])
            a = self.vec(kind)
            c = r.choice("01X")
            # indexes depend on the range of the argument: normalise it
            f = r.choice(["find_leftmost", "find_rightmost"])
            t = "%s(resize(%s, %d), '%s')" % (f, a.text, max(1, len(a.v)), c)
            L = len(a.v)
            m = [L - 1 - j for j, d in enumerate(a.v) if std_match1(d, c) or d == c == "X" and False]
            v = (m[0] if f[5] == "l" else m[-1]) if m else -1
            return Val("int", t, v)
        a = [r.choice(NINE) for _ in range(r.randint(1, 5))]
        return Val("sl", 'resolved(std_ulogic_vector\'("%s"))' % "".join(a), resolve(a))

    # ------------------------------------------------------------ numeric_bit
    def emit(self, v):
        n = len(self.exp) + 1
        if v.kind in ("uns", "sgn", "slv", "sulv"):
            t = "sh(%s)" % v.text if v.kind != "sulv" else "shu(%s)" % v.text
            want = v.v
        elif v.kind == "int":
            t, want = "integer'image(%s)" % v.text, str(v.v)
        elif v.kind == "bool":
            t, want = "boolean'image(%s)" % v.text, "true" if v.v else "false"
        else:
            t, want = ("std_ulogic'image(%s)" if not self.bitpk else "bit'image(%s)") % v.text, "'%s'" % v.v
        self.stmts.append('report "%d " & %s;' % (n, t))
        self.exp.append((v.text, want))

    def program(self, n):
        r = self.rng
        for _ in range(n):
            k = r.random()
            if k < .45:
                self.emit(self.arith(r.choice(["uns", "sgn"]), r.choice([0, 0, 1, 2])))
            elif k < .65:
                self.emit(self.cond())
            elif k < .72:
                self.emit(self.toint())
            elif self.bitpk:
                self.emit(self.arith(r.choice(["uns", "sgn"]), r.choice([0, 0, 1, 2])))
            elif k < .86:
                self.emit(self.logic(r.choice([0, 1, 2])))
            else:
                self.emit(self.misc())

    def text(self):
        pk = "numeric_bit" if self.bitpk else "numeric_std"
        slv = "" if self.bitpk else """
  function sh(x : std_logic_vector) return string is
    alias y : std_logic_vector(1 to x'length) is x; variable r : string(1 to x'length); variable s : string(1 to 3);
  begin
    for i in y'range loop s := std_ulogic'image(y(i)); r(i) := s(2); end loop;
    return integer'image(x'left) & " " & integer'image(x'right) & " " & boolean'image(x'ascending) & ":" & r;
  end;
  %s""" % ("" if self.std >= "2008" else """function shu(x : std_ulogic_vector) return string is begin
    return sh(std_logic_vector(x)); end;
""")
        shu = "" if self.bitpk else ("  alias shu is sh[std_logic_vector return string];\n" if self.std >= "2008" else "")
        el = "bit" if self.bitpk else "std_ulogic"
        num = "".join("""
  function sh(x : %s) return string is
    variable r : string(1 to x'length); variable s : string(1 to 3); variable k : natural := 0;
  begin
    for i in x'range loop k := k + 1; s := %s'image(x(i)); r(k) := s(2); end loop;
    return integer'image(x'left) & " " & integer'image(x'right) & " " & boolean'image(x'ascending) & ":" & r;
  end;""" % (t, el) for t in ("unsigned", "signed"))
        return """library ieee; use ieee.std_logic_1164.all; use ieee.%s.all;
entity top is end;
architecture a of top is%s%s
%sbegin
  process
    %s
  begin
    %s
    wait;
  end process;
end;
""" % (pk, slv, num, shu, "\n    ".join(self.decls), "\n    ".join(self.stmts))


class Syn(Gen):
    """std_logic_arith, std_logic_unsigned, std_logic_signed."""
    def __init__(self, rng, std):
        Gen.__init__(self, rng, std)
        self.pk = rng.choice(["std_logic_arith", "std_logic_unsigned", "std_logic_signed"])

    def tname(self, kind):
        return "std_logic_vector" if kind in ("uns", "sgn") and self.pk != "std_logic_arith" else Gen.tname(self, kind)

    def kinds(self):
        return {"std_logic_arith": ["uns", "sgn"], "std_logic_unsigned": ["uns"], "std_logic_signed": ["sgn"]}[self.pk]

    def wrap(self, kind, t):
        """The operators of std_logic_arith are overloaded on the type of the result."""
        return "%s'(%s)" % (self.tname(kind), t) if self.pk == "std_logic_arith" else t

    def one(self):
        r = self.rng
        kind = r.choice(self.kinds())
        N = snum if kind == "sgn" else unum
        a = self.vec(kind)
        x = to01(a.v)
        op = r.choice(["+", "+", "-", "-", "*", "*", "+i", "-i", "+l", "-l", "l+", "=", "/=", "<", "<=", ">", ">=", "=i", "<i",
                       "conv", "shl", "shr", "ext", "cslv", "neg", "abs"])
        if op in ("+l", "-l", "l+"):
            s = r.choice("01") if r.random() < .8 else r.choice(NINE)
            o = op.strip("l")
            t = "(%s %s std_ulogic'('%s'))" % (a.text, o, s) if op[0] != "l" else "(std_ulogic'('%s') + %s)" % (s, a.text)
            y = ZERO1.get(s, "?")
            t = self.wrap(kind, t)
            if x is None or y == "?":
                return Val(kind, t, None)
            return Val(kind, t, bits(N(x) + (int(y) if o == "+" else -int(y)), len(a.v)))
        if op in ("+i", "-i"):
            i = self.int(-100, 100) if kind == "sgn" else self.int(0, 100)
            t = self.wrap(kind, "(%s %s %s)" % (a.text, op[0], i.text))
            if x is None or len(a.v) < 9:
                return None
            return Val(kind, t, bits(N(x) + (i.v if op[0] == "+" else -i.v), len(a.v)))
        if op in ("=i", "<i"):
            if len(a.v) > 30 and kind == "uns":
                a = self.vec(kind, r.randint(1, 30))
                x = to01(a.v)
            # numbers are truncated to the length of the vector
            h = min(len(a.v) - (kind == "sgn"), 20)
            i = self.int(-(1 << h), (1 << h) - 1) if kind == "sgn" else self.int(0, (1 << h) - 1)
            if x is None:
                return None
            return Val("bool", "(%s %s %s)" % (a.text, op[0], i.text), N(x) == i.v if op[0] == "=" else N(x) < i.v)
        if op == "conv":
            a = self.vec(kind, r.randint(1, 31))
            x = to01(a.v)
            return Val("int", "conv_integer(%s)" % a.text, N(x)) if x is not None else None
        if op in ("shl", "shr"):
            if len(a.v) > 100:
                return None
            m = r.randint(0, len(a.v) + 2)
            if kind == "uns":
                s = self.vec("uns", b=bits(m, 9))
            elif self.pk == "std_logic_arith":
                s = Val("uns", 'unsigned\'("%s")' % bits(m, 9), None)
            else:
                s = self.vec(kind, b=bits(m, 9))
            f = (a.v[0] if kind == "sgn" else "0") if op == "shr" else "0"
            v = (a.v + f * m)[m:m + len(a.v)] if op == "shl" else (f * m + a.v)[:len(a.v)]
            return Val(kind, "%s(%s, %s)" % (op, a.text, s.text), v)
        if op in ("ext", "cslv"):
            if self.pk != "std_logic_arith":
                return None
            w = self.width()
            f = r.choice(["ext", "sxt"])
            b = self.vec("slv")
            e = "0" if f == "ext" else b.v[0]
            if op == "cslv":
                i = self.int()
                return Val("slv", "conv_std_logic_vector(%s, %d)" % (i.text, w), bits(i.v, w))
            e = (e * w + b.v)[-w:]
            return Val("slv", "%s(%s, %d)" % (f, b.text, w), None if any(c not in "01" for c in b.v) else e)
        if op in ("neg", "abs"):
            if kind == "uns" or x != a.v:
                return None
            v = bits(-N(x) if op == "neg" else abs(N(x)), len(a.v))
            return Val(kind, self.wrap(kind, "(- %s)" % a.text if op == "neg" else "(abs(%s))" % a.text), v)
        b = self.vec(kind)
        if op in ("=", "/=", "<", "<=", ">", ">="):
            if r.random() < .3 and x is not None:
                w = len(a.v) + r.randint(0, 4)
                b = self.vec(kind, b=bits(N(x) + r.choice([0, 0, 1]), w))
            y = to01(b.v)
            if x is None or y is None:
                return Val("bool", "(%s %s %s)" % (a.text, op, b.text), None)
            p, q = N(x), N(y)
            v = {"=": p == q, "/=": p != q, "<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op]
            return Val("bool", "(%s %s %s)" % (a.text, op, b.text), v)
        y = to01(b.v)
        t = self.wrap(kind, "(%s %s %s)" % (a.text, op, b.text))
        if x is None or y is None:
            return Val(kind, t, None)
        p, q = N(x), N(y)
        if op == "*":
            return Val(kind, t, bits(p * q, len(a.v) + len(b.v)))
        return Val(kind, t, bits(p + q if op == "+" else p - q, max(len(a.v), len(b.v))))

    def program(self, n):
        while len(self.exp) < n:
            n0 = len(self.decls)
            v = self.one()
            if v is not None:
                if v.v is not None and any(
                        ch in "LH" for d in self.decls[n0:] for ch in "".join(d.split('"')[1::2])) or any(
                        ch in "LH" for ch in "".join(v.text.split('"')[1::2])):
                    v.v = None     # these packages do not treat 'L' and 'H' alike
                if v.v is None:
                    v.v = False if v.kind == "bool" else ""
                    self.emit(v)
                    self.exp[-1] = (self.exp[-1][0], None)
                else:
                    self.emit(v)

    def text(self):
        t = Gen.text(self)
        u = "ieee.std_logic_arith.all" + ("" if self.pk == "std_logic_arith" else ", ieee.%s.all" % self.pk)
        t = t.replace("ieee.numeric_std.all", u)
        if self.pk != "std_logic_arith":
            t = t.replace("use ieee.std_logic_arith.all, ", "use ").replace("ieee.std_logic_arith.all, ", "")
            i = t.index("  function sh(x : unsigned)")
            j = t.index("begin\n  process")
            sh = "  alias shu is sh[std_logic_vector return string];\n" if self.std >= "2008" else ""
            t = t[:i] + sh + t[j:]
        return t


class Math:
    """math_real, against Python's floating point."""
    def __init__(self, rng):
        import math
        self.rng, self.exp, self.stmts, self.decls = rng, [], [], []
        F1 = {"sin": math.sin, "cos": math.cos, "log": math.log, "log2": math.log2, "log10": math.log10, "exp": math.exp,
              "sqrt": math.sqrt, "tan": math.tan, "arctan": math.atan, "sinh": math.sinh, "cosh": math.cosh,
              "tanh": math.tanh, "arcsin": math.asin, "arccos": math.acos, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
              "arcsinh": math.asinh, "arctanh": math.atanh}
        def rnd(x):
            return math.copysign(math.floor(abs(x) + .5), x)
        EX = {"round": rnd, "trunc": lambda x: float(math.trunc(x)), "floor": lambda x: float(math.floor(x)),
              "ceil": lambda x: float(math.ceil(x)), "sign": lambda x: (x > 0) - (x < 0) + 0.0}
        for k in range(40):
            f = rng.choice(list(F1) + list(EX) * 2 + ["pow", "ipow", "realmax", "realmin", "mod", "arctan2"])
            x = self.arg(f)
            n = "x%d" % k
            self.decls.append("variable %s : real := %s;" % (n, self.lit(x)))
            if f in F1:
                self.put("%s(%s)" % (f, n), F1[f](x), False, x)
            elif f in EX:
                self.put("%s(%s)" % (f, n), EX[f](x), True, x)
            elif f == "pow":
                x = abs(x) + .01
                y = rng.choice([0.0, 1.0, 2.0, -1.0, .5, rng.uniform(-5, 5)])
                self.decls[-1] = "variable %s : real := %s;" % (n, self.lit(x))
                self.put("%s ** real'(%s)" % (n, self.lit(y)), x ** y, False, x)
            elif f == "ipow":
                i = rng.randint(-9, 9)
                if i == 0:
                    i = 2
                y = rng.uniform(0, 5)
                self.put("integer'(%d) ** real'(%s)" % (abs(i), self.lit(y)), float(abs(i)) ** y, False, x)
            elif f in ("realmax", "realmin"):
                y = self.arg("round")
                self.put("%s(%s, %s)" % (f, n, self.lit(y)), (max if f[4:] == "max" else min)(x, y), True, x)
            elif f == "mod":
                y = rng.choice([-1, 1]) * rng.uniform(.5, 20)
                self.put("%s mod real'(%s)" % (n, self.lit(y)), x - y * math.floor(x / y), False, x)
            else:
                y = rng.uniform(-10, 10)
                self.put("arctan(%s, %s)" % (n, self.lit(y)), math.atan2(x, y), False, x)

    def lit(self, x):
        t = "%.17e" % x
        m, e = t.split("e")
        t = m + "e" + str(int(e))
        return t if x >= 0 and not t.startswith("-") else "(%s)" % t

    def arg(self, f):
        r = self.rng
        if f in ("log", "log2", "log10", "sqrt"):
            return r.choice([1.0, 2.0, 10.0, .5, 1e-9, 1e9, r.uniform(0.01, 100), r.uniform(0.01, 1e6)])
        if f in ("arcsin", "arccos", "arctanh"):
            return r.uniform(-.99, .99)
        if f in ("exp", "sinh", "cosh", "tanh", "arctanh"):
            return r.choice([0.0, 1.0, -1.0, r.uniform(-10, 10), r.uniform(-1, 1)])
        if f == "arcsinh":
            return r.uniform(-100, 100)
        if f == "tan":
            return r.uniform(-1.2, 1.2)
        if f in ("sin", "cos"):
            return r.choice([0.0, 1.0, r.uniform(-7, 7), r.uniform(-1.5, 1.5), r.uniform(-.01, .01)])
        return r.choice([0.0, .5, -.5, 1.5, -1.5, 2.5, -2.5, .49999999999999, 1.0, -1.0, r.uniform(-100, 100),
                         r.uniform(-1e6, 1e6), float(r.randint(-50, 50)), r.randint(-50, 50) + .5])

    def put(self, e, v, exact, x):
        self.stmts.append('report "%d " & real\'image(%s);' % (len(self.exp) + 1, e))
        self.exp.append((e + " at %r" % x, v, exact))

    def text(self):
        return """library ieee; use ieee.math_real.all;
entity top is end;
architecture a of top is
begin
  process
    %s
  begin
    %s
    wait;
  end process;
end;
""" % ("\n    ".join(self.decls), "\n    ".join(self.stmts))
